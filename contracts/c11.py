from vc import *
from common import *
from pyswagger.utils import CaseInsensitiveDict
from pyswagger.core import BaseClient

NAMES = ['Accept', 'accept', 'X-A', 'x-a', 'ACCEPT']
NAME = Str(ex=NAMES)
PAIRS = ListOf(Tup(NAME, Str()))


def stored(pairs):
    d = CaseInsensitiveDict()
    for k, v in pairs:
        d[k] = v
    return d


@harness('lookup', 'C11', inputs={'pairs': PAIRS, 'k': NAME, 'v': Str(), 'q': NAME}, covers=['same', 'other'])
def lookup(pairs, k, v, q):
    d = stored(pairs)
    was = q in d
    d[k] = v
    if q.lower() == k.lower():
        cover('same')
        ensure(q in d, 'a stored name is found whatever its case')
        ensure(d[q] == v, 'with the value stored last')
        ensure(d.get(q) == v, 'by every way of looking up')
    else:
        cover('other')
        ensure(iff(q in d, was), 'other names are as they were')


@harness('lookup_all', 'C11', inputs={'pairs': PAIRS, 'q': NAME}, covers=['yes', 'no'])
def lookup_all(pairs, q):
    d = stored(pairs)
    there = any(p[0].lower() == q.lower() for p in pairs)
    cover('yes' if there else 'no')
    ensure(iff(q in d, there), 'a name is there exactly when it was stored in some case')
    r = outcome(lambda: d[q])
    ensure(iff(r.ok, there), 'and then it can be looked up')
    if not there:
        ensure(isinstance(r.exc, KeyError), 'a missing name is a key error')
        ensure(d.get(q, 'x') == 'x', 'or the given default')


@harness('other_value', 'C11', inputs={'pairs': PAIRS, 'k': NAME, 'v': Str(), 'w': Str(), 'q': NAME})
def other_value(pairs, k, v, w, q):
    assume(q.lower() != k.lower())
    d = stored(pairs)
    d[q] = w
    d[k] = v
    ensure(d[q] == w, 'storing one name leaves the value of another one')


@harness('removed', 'C11', inputs={'pairs': PAIRS, 'k': NAME, 'v': Str(), 'q': NAME}, covers=['same', 'other'])
def removed(pairs, k, v, q):
    d = stored(pairs)
    d[k] = v
    was = q in d
    if q.lower() == k.lower():
        cover('same')
        del d[q]
        ensure(k not in d, 'removing a name in any case removes it')
        ensure(not outcome(lambda: d[k]).ok, 'and its value')
    else:
        cover('other')
        del d[k]
        ensure(iff(q in d, was), 'other names stay')


@harness('names', 'C11', inputs={'a': NAME, 'b': NAME, 'c': NAME, 'u': Str(), 'v': Str(), 'w': Str()}, covers=['one', 'two', 'three'])
def names(a, b, c, u, v, w):
    d = stored([(a, u), (b, v), (c, w)])
    la, lb, lc = a.lower(), b.lower(), c.lower()
    want = []
    if la != lb and la != lc:
        want.append((a, u))
    if lb != lc:
        want.append((b, v))
    want.append((c, w))
    cover(['', 'one', 'two', 'three'][len(want)])
    ensure(len(d) == len(want), 'one entry per name')
    ns = list(d)
    for n, x in want:
        ensure(n in ns, 'iterating names them as last given')
        ensure((n, x) in list(d.items()), 'with the value given last')
    ensure(len(ns) == len(want), 'and nothing else')


# ---------------------------------------------------------------------------

class Req(object):
    def __init__(self, header, schemes=None):
        self.header = header
        self.schemes = schemes


HDR = DictOf(Str(), keys=NAMES)


def options(join):
    return {} if join is None else {'join_headers': join}


@harness('no_custom', 'C11', inputs={'h': HDR, 'd': Bool(), 'j': OneOf(None, True, False)})
def no_custom(h, d, j):
    r = BaseClient().compose_headers(Req(dict(h)), None, options(j), as_dict=d)
    ensure_same(dict(r), h, 'without custom headers the headers of the request')


@harness('pairs_kept', 'C11', inputs={'h': HDR, 'c': PAIRS, 'j': OneOf(None, False)})
def pairs_kept(h, c, j):
    given = list(c)
    o = options(j)
    r = BaseClient().compose_headers(Req(h), given, o)
    ensure_same(r, list(h.items()) + c, 'every pair, those of the request first')
    ensure_same(given, c, 'the list of the caller is as it was')
    ensure_same(o, options(j), 'and his options')


@harness('map_kept', 'C11', inputs={'h': HDR, 'c': HDR, 'j': OneOf(None, False)})
def map_kept(h, c, j):
    given = dict(c)
    r = BaseClient().compose_headers(Req(h), given, options(j))
    ensure_same(r, list(h.items()) + list(c.items()), 'every pair, those of the request first')
    ensure_same(given, c, 'the map of the caller is as it was')


@harness('as_map', 'C11', inputs={'h': HDR, 'c': HDR, 'j': OneOf(None, False), 'q': NAME})
def as_map(h, c, j, q):
    given = dict(c)
    req = Req(dict(h))
    r = BaseClient().compose_headers(req, given, options(j), as_dict=True)
    ensure(iff(q in r, either(q in h, q in c)), 'no name is lost or invented')
    if q in h:
        ensure(r[q] == h[q], 'the value of the request')
    elif q in c:
        ensure(r[q] == c[q], 'the custom value')
    ensure_same(given, c, 'the map of the caller is as it was')
    ensure_same(req.header, h, 'the request is as it was')


@harness('as_map_of_list', 'C11', inputs={'h': HDR, 'c': PAIRS, 'j': OneOf(None, False), 'q': NAME})
def as_map_of_list(h, c, j, q):
    given = list(c)
    r = BaseClient().compose_headers(Req(dict(h)), given, options(j), as_dict=True)
    ensure(iff(q in r, either(q in h, any(x[0] == q for x in c))), 'no name is lost or invented')
    if q in h:
        ensure(r[q] == h[q], 'the value of the request')
    ensure_same(given, c, 'the list of the caller is as it was')


@harness('joined_map', 'C11', inputs={'h': HDR, 'c': HDR, 'd': Bool(), 'q': NAME}, covers=['both', 'req', 'custom', 'none'])
def joined_map(h, c, d, q):
    given = dict(c)
    o = options(True)
    req = Req(dict(h))
    r = BaseClient().compose_headers(req, given, o, as_dict=d)
    ensure(isinstance(r, dict if d else list), 'in the form asked for')
    m = dict(r)
    ensure(iff(q in m, either(q in h, q in c)), 'no name is lost or invented')
    if q in h and q in c:
        cover('both')
        ensure(m[q] == h[q] + ',' + c[q], 'repeated names are joined, the request first')
    elif q in h:
        cover('req')
        ensure(m[q] == h[q], 'the value of the request')
    elif q in c:
        cover('custom')
        ensure(m[q] == c[q], 'the custom value')
    else:
        cover('none')
    ensure_same(given, c, 'the map of the caller is as it was')
    ensure_same(o, options(True), 'and his options')
    ensure_same(req.header, h, 'the request is as it was')


@harness('joined_list', 'C11', inputs={'k': NAME, 'a': Str(), 'b': Str(), 'c': Str(), 'x': NAME, 'd': Bool()}, covers=['same', 'other'])
def joined_list(k, a, b, c, x, d):
    r = BaseClient().compose_headers(Req({k: a}), [(k, b), (x, c)], options(True), as_dict=d)
    m = dict(r)
    if k == x:
        cover('same')
        ensure_same(m, {k: a + ',' + b + ',' + c}, 'all values of a repeated name, in order')
        ensure(len(r) == 1, 'in one header')
    else:
        cover('other')
        ensure_same(m, {k: a + ',' + b, x: c}, 'all values of the repeated name, and the other one')
        ensure(len(r) == 2, 'in two headers')


SCHEMES = ['http', 'https', 'ws']


def client(mine):
    class Client(BaseClient):
        __schemes__ = set(mine)
    return Client()


@harness('schemes', 'C11', inputs={'mine': DictOf(Bool(), keys=SCHEMES), 'theirs': ListOf(Str(ex=SCHEMES)), 'q': Str(ex=SCHEMES)}, covers=['some', 'not'])
def schemes(mine, theirs, q):
    r = outcome(client(mine).prepare_schemes, Req({}, theirs))
    if q in mine and q in theirs:
        cover('some')
        ensure(r.ok, 'a scheme both sides support is enough')
        ensure(q in r.val, 'and is offered')
    else:
        cover('not')
        if r.ok:
            ensure(q not in r.val, 'nothing else is offered')
        else:
            ensure(isinstance(r.exc, ValueError), 'failing is by a value error')


@harness('no_scheme', 'C11', inputs={'mine': DictOf(Bool(), keys=SCHEMES), 'theirs': ListOf(Str(ex=SCHEMES))})
def no_scheme(mine, theirs):
    assume(all(x not in theirs for x in mine))
    r = outcome(client(mine).prepare_schemes, Req({}, theirs))
    ensure(not r.ok, 'without a common scheme the call fails')
