from vc import *
from common import *
import base64
from pyswagger.core import Security


def latin(s):
    """the credentials of basic access authentication are sent as latin-1 octets, as requests does"""
    try:
        s.encode('latin-1')
        return True
    except UnicodeError:
        return False


class Req(object):
    """what a request shows to the security handler"""
    def __init__(self, security, header, query):
        self._security = security
        self._p = {'header': header, 'query': query}


class TheApp(object):
    def __init__(self, defs):
        self.root = swagger(securityDefinitions=defs)


def apply(app, regs, security, header, query):
    s = Security(app)
    for n, cred in regs:
        s.update_with(n, cred)
    r = Req(security, header, query)
    return s(r)


HDR = DictOf(Str())
QRY = ListOf(Tup(Str(), Str()))
SCOPES = ListOf(Str())


@harness('api_key_header', 'C09', inputs={'n': Str(), 'key': Str(), 'tok': Str(), 'h': HDR, 'q': QRY, 'sc': SCOPES})
def api_key_header(n, key, tok, h, q, sc):
    a = TheApp({n: security_scheme(type='apiKey', name=key, **{'in': 'header'})})
    r = apply(a, [(n, tok)], [{n: sc}], dict(h), list(q))
    w = dict(h)
    w[key] = tok
    ensure_same(r._p['header'], w, 'the key is sent as the header the scheme names, replacing an older one')
    ensure_same(r._p['query'], q, 'and nowhere else')


@harness('api_key_query', 'C09', inputs={'n': Str(), 'key': Str(), 'tok': Str(), 'h': HDR, 'q': QRY, 'sc': SCOPES}, covers=['had', 'new'])
def api_key_query(n, key, tok, h, q, sc):
    a = TheApp({n: security_scheme(type='apiKey', name=key, **{'in': 'query'})})
    r = apply(a, [(n, tok)], [{n: sc}], dict(h), list(q))
    ensure_same(r._p['header'], h, 'no header is touched')
    had = any(x[0] == key for x in q)
    cover('had' if had else 'new')
    if had:
        ensure_same(r._p['query'], [(key, tok) if x[0] == key else x for x in q], 'an older value of the name is replaced')
    else:
        ensure_same(r._p['query'], q + [(key, tok)], 'the key is added')


@harness('basic', 'C09', inputs={'n': Str(), 'user': Str(), 'pw': Str(), 'h': HDR, 'q': QRY, 'sc': SCOPES})
def basic(n, user, pw, h, q, sc):
    assume(latin(user + pw))
    a = TheApp({n: security_scheme(type='basic')})
    r = apply(a, [(n, (user, pw))], [{n: sc}], dict(h), list(q))
    w = dict(h)
    w['Authorization'] = 'Basic ' + base64.b64encode((user + ':' + pw).encode('latin-1')).decode('utf-8')
    ensure_same(r._p['header'], w, 'user and password in the authorization header')
    ensure_same(r._p['query'], q, 'and nowhere else')


@harness('oauth', 'C09', inputs={'n': Str(), 'tok': Str(), 'h': HDR, 'q': QRY, 'sc': SCOPES})
def oauth(n, tok, h, q, sc):
    a = TheApp({n: security_scheme(type='oauth2')})
    r = apply(a, [(n, tok)], [{n: sc}], dict(h), list(q))
    w = dict(h)
    w['access_token'] = tok
    ensure_same(r._p['header'], w, 'the token in the header')
    ensure_same(r._p['query'], q, 'and nowhere else')


@harness('unlisted', 'C09', inputs={'n': Str(), 'reg': Bool(), 'key': Str(), 'tok': Str(), 'where': OneOf('header', 'query'), 'sec': ListOf(DictOf(SCOPES)), 'h': HDR, 'q': QRY})
def unlisted(n, reg, key, tok, where, sec, h, q):
    assume(all(n not in d for d in sec))
    a = TheApp({n: security_scheme(type='apiKey', name=key, **{'in': where})})
    r = apply(a, [(n, tok)] if reg else [], sec, dict(h), list(q))
    ensure_same(r._p['header'], h, 'an operation that does not list the name gets no header')
    ensure_same(r._p['query'], q, 'and no query')


@harness('no_security', 'C09', inputs={'tok': Str(), 'h': HDR, 'q': QRY, 'sec': OneOf(None, [])})
def no_security(tok, h, q, sec):
    a = TheApp({'n': security_scheme(type='oauth2')})
    r = apply(a, [('n', tok)], sec, dict(h), list(q))
    ensure_same(r._p['header'], h, 'an operation without security gets no header')
    ensure_same(r._p['query'], q, 'and no query')


def single(name, scopes):
    return {name: scopes}


@harness('listed', 'C09', inputs={'tok': Str(), 'key': Str(), 'sec': ListOf(Build(single, Str(ex=['n', 'm']), SCOPES)), 'h': HDR}, covers=['yes', 'no'])
def listed(tok, key, sec, h):
    a = TheApp({'n': security_scheme(type='apiKey', name=key, **{'in': 'header'})})
    r = apply(a, [('n', tok)], sec, dict(h), [])
    w = dict(h)
    if any('n' in d for d in sec):
        cover('yes')
        w[key] = tok
    else:
        cover('no')
    ensure_same(r._p['header'], w, 'attached when and only when the operation lists the name')


@harness('two_names', 'C09', inputs={'a': Str(), 'b': Str(), 'ka': Str(), 'kb': Str(), 'ra': Bool(), 'rb': Bool(), 'ta': Str(), 'tb': Str(), 'h': HDR, 'one': Bool()})
def two_names(a, b, ka, kb, ra, rb, ta, tb, h, one):
    assume(a != b)
    app = TheApp({a: security_scheme(type='apiKey', name=ka, **{'in': 'header'}), b: security_scheme(type='apiKey', name=kb, **{'in': 'query'})})
    regs = ([(a, ta)] if ra else []) + ([(b, tb)] if rb else [])
    r = apply(app, regs, [{a: [], b: []}] if one else [{a: []}, {b: []}], dict(h), [])
    w = dict(h)
    if ra:
        w[ka] = ta
    ensure_same(r._p['header'], w, 'the first credential if it is registered')
    ensure_same(r._p['query'], [(kb, tb)] if rb else [], 'the second one if it is registered')


@harness('registration', 'C09', inputs={'n': Str(), 'm': Str(), 'type': Str(ex=['basic', 'apiKey', 'oauth2', 'Basic', 'apikey']), 'cred': Str()}, covers=['ok', 'unknown', 'unsupported'])
def registration(n, m, type, cred):
    assume(latin(cred))
    s = Security(TheApp({n: security_scheme(type=type, name='k', **{'in': 'header'})}))
    r = outcome(s.update_with, m, (cred, cred) if type == 'basic' else cred)
    if n != m:
        cover('unknown')
        ensure(not r.ok, 'an unknown name is refused')
        ensure(isinstance(r.exc, ValueError), 'by a value error')
    elif type == 'basic' or type == 'apiKey' or type == 'oauth2':
        cover('ok')
        ensure(r.ok, 'a declared scheme is accepted')
    else:
        cover('unsupported')
        ensure(not r.ok, 'an unsupported scheme is refused')
        ensure(isinstance(r.exc, ValueError), 'by a value error')


@harness('replaced', 'C09', inputs={'n': Str(), 'key': Str(), 't1': Str(), 't2': Str(), 'where': OneOf('header', 'query')})
def replaced(n, key, t1, t2, where):
    s = Security(TheApp({n: security_scheme(type='apiKey', name=key, **{'in': where})}))
    s.update_with(n, t1)
    r1 = s(Req([{n: []}], {}, []))
    s.update_with(n, t2)
    r = s(Req([{n: []}], {}, []))
    ensure_same(r._p['header'], {key: t2} if where == 'header' else {}, 'the credential registered last')
    ensure_same(r._p['query'], [(key, t2)] if where == 'query' else [], 'the credential registered last')
    ensure_same(r1._p['header'], {key: t1} if where == 'header' else {}, 'earlier requests are not changed')


@harness('separate', 'C09', inputs={'n': Str(), 't1': Str()})
def separate(n, t1):
    app = TheApp({n: security_scheme(type='oauth2')})
    s, t = Security(app), Security(app)
    s.update_with(n, t1)
    r = t(Req([{n: []}], {}, []))
    ensure_same(r._p['header'], {}, 'credentials belong to one handler')


@harness('again', 'C09', inputs={'n': Str(), 'key': Str(), 'tok': Str(), 'q': QRY})
def again(n, key, tok, q):
    s = Security(TheApp({n: security_scheme(type='apiKey', name=key, **{'in': 'query'})}))
    s.update_with(n, tok)
    once = s(Req([{n: []}], {}, list(q)))
    w = list(once._p['query'])
    ensure_same(s(once)._p['query'], w, 'attached once')


@harness('listed_map', 'C09', inputs={'tok': Str(), 'key': Str(), 'req': DictOf(SCOPES), 'h': HDR}, covers=['yes', 'no'])
def listed_map(tok, key, req, h):
    a = TheApp({'a': security_scheme(type='apiKey', name=key, **{'in': 'header'})})
    r = apply(a, [('a', tok)], [req], dict(h), [])
    w = dict(h)
    if 'a' in req:
        cover('yes')
        w[key] = tok
    else:
        cover('no')
    ensure_same(r._p['header'], w, 'attached when and only when the requirement names it')


@harness('several_lists', 'C09', inputs={'one': Tup(Bool(), Bool(), Bool()), 'two': Tup(Bool(), Bool(), Bool()), 'known': Tup(OneOf(True), OneOf(True), Bool()), 'toks': Tup(Str(), Str(), Str()), 'h': HDR})
def several_lists(one, two, known, toks, h):
    """requirements of several names each, in any combination, with any of them registered"""
    names = ['a', 'b', 'c']
    a = TheApp(dict((n, security_scheme(type='apiKey', name='X-' + n, **{'in': 'header'})) for n in names))
    regs = [(n, t) for n, t, k in zip(names, toks, known) if k]
    lists = [dict((n, []) for n, b in zip(names, l) if b) for l in (one, two)]
    r = apply(a, regs, lists, dict(h), [])
    w = dict(h)
    for i in range(3):
        if known[i] and (one[i] or two[i]):
            w['X-' + names[i]] = toks[i]
    ensure_same(r._p['header'], w, 'every listed name with a known credential, and no other')
    ensure(r._p['query'] == [], 'and nowhere else')
