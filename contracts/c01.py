from vc import *
from common import *
from pyswagger import utils


@harness('jp_inverse', 'C01', inputs={'toks': ListOf(Str()), 'base': OneOf('#', 'definitions')})
def jp_inverse(toks, base):
    s = utils.jp_compose(toks, base)
    r = utils.jp_split(s)
    ensure(len(r) > 0, 'pointer is never empty')
    ensure(r[0] == base, 'head is the base')
    ensure(same(r[1:], toks), 'split inverts compose')


@harness('jp_inverse_nobase', 'C01', inputs={'toks': ListOf(Str(), min=1)})
def jp_inverse_nobase(toks):
    s = utils.jp_compose(toks)
    assume(s != '')
    ensure(same(utils.jp_split(s), toks), 'split inverts compose without base')


@harness('jp_single', 'C01', inputs={'tok': Str(), 'base': Opt(Str())})
def jp_single(tok, base):
    ensure(utils.jp_compose(tok, base) == utils.jp_compose([tok], base), 'a string is a one-token list')
    ensure(utils.jp_compose(None, base) == base, 'no token returns the base')


@harness('jp_step', 'C01', inputs={'a': ListOf(Str(), min=1), 'b': Str(), 'base': Str(nonempty=True)})
def jp_step(a, b, base):
    ensure(utils.jp_compose(b, utils.jp_compose(a, base)) == utils.jp_compose(a + [b], base), 'composing step by step')


@harness('jp_inject', 'C01', inputs={'a': Str(), 'b': Str(), 'base': Str(nonempty=True)})
def jp_inject(a, b, base):
    assume(a != b)
    ensure(utils.jp_compose(a, base) != utils.jp_compose(b, base), 'different tokens, different pointers')


@harness('jp_plain', 'C01', inputs={'a': Str(no='~/'), 'base': Str(nonempty=True)})
def jp_plain(a, base):
    ensure(utils.jp_compose(a, base) == base + '/' + a, 'tokens without special characters are kept')


# resolution: the pointer of a child addresses that child

PROP = Build(schema, type=Scalar('none', 'str'))


@harness('jp_children_dict', 'C01', inputs={'props': DictOf(PROP), 'it': Opt(PROP)})
def jp_children_dict(props, it):
    s = schema(properties=props, items=it)
    ch = s._children_
    for k in ch:
        ensure(s.resolve(utils.jp_split(k)) is ch[k], 'child pointer resolves to the child')
    for n in props:
        ensure(ch[utils.jp_compose(['properties', n])] is props[n], 'every property is a child')


@harness('jp_children_list', 'C01', inputs={'allof': ListOf(PROP)})
def jp_children_list(allof):
    s = schema(allOf=allof)
    ch = s._children_
    for k in ch:
        ensure(s.resolve(utils.jp_split(k)) is ch[k], 'child pointer resolves to the child')
    ensure(len(ch) == len(allof), 'every element is a child')


@harness('jp_resolve', 'C01', inputs={'props': DictOf(PROP), 'n': Str()})
def jp_resolve(props, n):
    assume(n in props)
    s = schema(properties=props)
    t = schema(items=s)
    ensure(t.resolve(utils.jp_split(utils.jp_compose(['items', 'properties', n], '#'))[1:]) is props[n], 'pointer resolves through any key')
    ensure(s.resolve(['properties', n, 'type']) == props[n].type, 'pointer resolves to a field')


def loaded(xs, deep):
    from pyswagger.resolve import Resolver
    return Resolver(default_getter=Web({'http://h/a': {'l': {'x': xs} if deep else xs}}).getter())


@harness('jp_index', 'C01', inputs={'xs': ListOf(Scalar()), 'i': Int(), 'deep': Bool()}, covers=['item', 'none'])
def jp_index(xs, i, deep):
    got = outcome(loaded(xs, deep).resolve, 'http://h/a' + utils.jp_compose(['l', 'x', str(i)] if deep else ['l', str(i)], '#'))
    if both(i >= 0, i < len(xs)):
        cover('item')
        ensure(both(got.ok, same(got.val, xs[i])), 'the item at this place')
    else:
        cover('none')
        ensure(not got.ok, 'a pointer to nothing is refused')


@harness('jp_no_index', 'C01', inputs={'xs': ListOf(Scalar()), 't': OneOf('-1', '-2', '-0', '+1', '01', '00', '0 ', '1_0', '1.0', '1e0', '0x1', 'a', '-', ''), 'deep': Bool()})
def jp_no_index(xs, t, deep):
    got = outcome(loaded(xs, deep).resolve, 'http://h/a' + utils.jp_compose(['l', 'x', t] if deep else ['l', t], '#'))
    ensure(not got.ok, 'a token that is no index of a list is refused')


@harness('jp_absent', 'C01', inputs={'k': Str(no='\t\r\n', ex=['a', 'get']), 't': Str(no='\t\r\n', ex=['A', 'GET', 'a ', '']), 'x': Scalar(), 'deep': Bool()}, covers=['it', 'none'])
def jp_absent(k, t, x, deep):
    from pyswagger.resolve import Resolver
    d = Resolver(default_getter=Web({'http://h/a': {'l': {k: {'m': x}} if deep else {k: x}}}).getter())
    got = outcome(d.resolve, 'http://h/a' + utils.jp_compose(['l', t, 'm'] if deep else ['l', t], '#'))
    if k == t:
        cover('it')
        ensure(both(got.ok, same(got.val, x)), 'the thing of that name')
    else:
        cover('none')
        ensure(not got.ok, 'a pointer to nothing is refused')


@harness('jp_item', 'C01', inputs={'xs': ListOf(PROP), 'i': Int()}, covers=['item', 'none'])
def jp_item(xs, i):
    s = schema(allOf=xs)
    got = outcome(schema(items=s).resolve, ['items', 'allOf', str(i)])
    if both(i >= 0, i < len(xs)):
        cover('item')
        ensure(both(got.ok, got.val is xs[i]), 'the item at this place')
    elif i >= len(xs):
        cover('none')
        ensure(not got.ok, 'a pointer behind the list is refused')
    else:
        ensure(not got.ok, 'a pointer before the list is refused')


@harness('jp_nothing', 'C01', inputs={'props': DictOf(PROP), 'n': Str(), 'm': Str()}, covers=['none'])
def jp_nothing(props, n, m):
    s = schema(properties=props)
    if n not in props:
        cover('none')
        ensure(not outcome(s.resolve, ['properties', n]).ok, 'a name that is not there is refused')
        ensure(not outcome(schema(items=s).resolve, utils.jp_split(utils.jp_compose(['items', 'properties', n], '#'))[1:]).ok, 'a name that is not there is refused')


CACHED = Str(no='/~%#?;\t\r\n')


@harness('jp_cached', 'C01', inputs={'a': OneOf('User', 'A', 'user-1'), 's': CACHED, 't': Tup(Str(), Str(), Str()), 'seq': Tup(OneOf(0, 1, 2), OneOf(0, 1, 2))}, sizes='two resolutions of three references')
def jp_cached(a, s, t, seq):
    """objects of another document found one after the other, whatever their names have in common"""
    from pyswagger.core import App
    from pyswagger.resolve import Resolver
    from pyswagger.spec.v2_0.parser import SchemaContext
    assume(s != '')
    b = a + s
    app = App.load('http://h/a', resolver=Resolver(default_getter=Web({
        'http://h/a': {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}},
        'http://h/b': {'definitions': {a: {'description': t[0], 'items': {'description': t[2]}}, b: {'description': t[1]}}}}).getter()))
    app.prepare()
    for i in seq:
        p = [['definitions', a], ['definitions', b], ['definitions', a, 'items']][i]
        ensure(app.resolve('http://h/b' + utils.jp_compose(p, '#'), parser=SchemaContext).description == t[i], 'the object of that name')
