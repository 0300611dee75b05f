"""Loader of the extracted program and models of the modules it imports."""
import ast
import builtins
import functools
import itertools
import math
import os
import sys
import types
import z3
from .dates import DATES_SRC, UUID_SRC
from . import core, rtl, strs, coll, urls, regex
from .ops import mk
from .core import C, Sym, Lazy, Obj, Unsupported, EngineError, prog, norm, Val, box, memo_add, memo_lists
from .rtl import (model, K, KW, G, I, imp, native_of, segs_of, mkpartial, mkiter, PyIter, b_isinstance, ISHOOK, PObj, native_list,
                  BASES, BASEMAP, getattr_static, truth, lookup)
from .coll import PyColl, PyList, PyDict, PySet, PyFrozen, mklist, mksegs, mkdict, mklayers, run_loop, Items, raw_setattr, Exit
from .transform import Tr

REPO = os.environ.get('VERIF_REPO', '/repo')


class Mod(types.ModuleType):
    pass


def ns(name_, **kw):
    m = Mod(name_)
    m.__dict__.update(kw)
    return m


class Stub(object):
    """native object without behaviour (logging)"""
    _vc_nativeobj = True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = lambda *a, **k: None
        f._vc_native = True
        return f


# -- six -----------------------------------------------------------------------
import six as _six


def _wm(meta, *bases):
    return _six.with_metaclass(meta, *BASES(*bases))


def _it(name):
    def f(d):
        return rtl.b_iter(K(G(d, name)))
    return f


def _reduce(f, it, *init):
    segs = segs_of(it)
    acc = list(init)

    def body(x):
        if acc:
            acc[0] = K(f, acc[0], x)
        else:
            acc.append(x)
    for s in segs:
        if not isinstance(s, Items):
            # the accumulator is loop carried
            o = PObj()
            if not acc:
                raise Unsupported('reduce over an unbounded collection without initial value')
            raw_setattr(o, 'acc', acc[0])

            def body2(x):
                C.note_read(o, 'acc')
                raw_setattr(o, 'acc', K(f, o.__dict__['acc'], x))
            run_loop((s,), body2)
            acc[0] = o.__dict__['acc']
        else:
            for v in s.vals:
                body(v)
    if not acc:
        raise prog(TypeError('reduce() of empty sequence with no initial value'))
    return acc[0]


def uheap(*a):
    from .vcsym import uheap as u
    return u(*a)


def _u(name, ret):
    import urllib.parse as up

    def f(*a, **k):
        na, nk = native_of(a), native_of(tuple(k.values()))
        if na is not None and nk is not None:
            try:
                return imp(getattr(up, name)(*na[0], **dict(zip(k, nk[0]))))
            except Exception as e:
                raise prog(e)
        C.trusted.add('urllib.parse.%s is a deterministic function of its arguments' % name)
        return uheap('urllib.' + name, list(a) + [mkdict(k)], ret)
    f.__name__ = name
    return f


URL_SRC = '''
NETLOC = %r


def urlunparse(components):
    scheme, netloc, url, params, query, fragment = components
    if params:
        url = url + ';' + params
    return urlunsplit((scheme, netloc, url, query, fragment))


def urlunsplit(components):
    scheme, netloc, url, query, fragment = components
    if netloc or (scheme and scheme in NETLOC and not url.startswith('//')):
        if url and not url.startswith('/'):
            url = '/' + url
        url = '//' + netloc + url
    if scheme:
        url = scheme + ':' + url
    if query:
        url = url + '?' + query
    if fragment:
        url = url + '#' + fragment
    return url
''' % (list(urls.NETLOC),)
_usrc = []


def _url(name):
    def f(*a):
        if not _usrc:
            m = Mod('urls')
            m.__dict__['__builtins__'] = BUILTINS
            m.__dict__['_vcR'] = rtl
            exec_module(m, URL_SRC, '<vc-prelude:urls>')
            _usrc.append(m)
        return K(getattr(_usrc[0], name), *a)
    f.__name__ = name
    return f


def _urlparse(u, *a, **k):
    import urllib.parse as up
    u = norm(u)
    if isinstance(u, str):
        return up.urlparse(u)
    if isinstance(u, Sym) and u.k == 'str':
        r = urls.parse(u.t)
        if r is not None:
            C.trusted.add('urllib.parse.urlparse takes a URL apart as RFC 3986 describes')
            return up.ParseResult(*r)
        C.trusted.add('urllib.parse.urlparse is a deterministic function of its argument')
        return up.ParseResult(*[Sym('str', z3.Function('url.' + n, z3.StringSort(), z3.StringSort())(u.t))
                                for n in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')])
    raise Unsupported('urlparse of a non-string')


_urlparse_raw = _urlparse
_parse = ns('six.moves.urllib.parse', urlparse=_urlparse_raw, urlunparse=_url('urlunparse'), urljoin=_u('urljoin', 'str'),
            quote_plus=_u('quote_plus', 'str'), quote=_u('quote', 'str'), unquote=_u('unquote', 'str'), unquote_plus=_u('unquote_plus', 'str'),
            urlencode=_u('urlencode', 'str'), urlsplit=_u('urlsplit', 'str'))


def _nope(what):
    def f(*a, **k):
        raise Unsupported(what)
    return f


_urllib = ns('six.moves.urllib', parse=_parse, request=ns('six.moves.urllib.request', urlopen=_nope('network access'),
                                                          pathname2url=_nope('pathname2url'), url2pathname=_nope('url2pathname')))


class IteratorBase(PObj):
    def next(self):
        return type(self).__next__(self)


def _bytesio(*a):
    raise Unsupported('in-memory files')


six_mod = ns('six', iteritems=_it('items'), iterkeys=_it('keys'), itervalues=_it('values'), string_types=(str,), integer_types=(int,),
             text_type=str, binary_type=bytes, class_types=(type,), with_metaclass=_wm, advance_iterator=rtl.b_next, next=rtl.b_next,
             Iterator=IteratorBase, b=lambda s: strs.s_encode(norm(s), 'latin-1'), u=lambda s: s, PY2=False, PY3=True, BytesIO=_bytesio,
             moves=ns('six.moves', urllib=_urllib, reduce=_reduce, xrange=range, range=range, zip=zip, map=map, filter=filter,
                      cStringIO=_bytesio, input=input),
             reraise=_six.reraise, raise_from=_six.raise_from)
for _f in (_six.with_metaclass,):
    pass

# -- functools -------------------------------------------------------------------


def _wraps(f, *a):
    def deco(g):
        try:
            return functools.wraps(f)(g)
        except Exception:
            return g
    return deco


functools_mod = ns('functools', partial=mkpartial, reduce=_reduce, wraps=_wraps)

# -- copy ------------------------------------------------------------------------


def shallow(v):
    v = norm(v)
    if isinstance(v, Obj):
        f = getattr_static(type(v), '__copy__')
        if f is not None:
            return K(f, v)
        n = PyColl.__new__(type(v)) if isinstance(v, PyColl) else Obj.__new__(type(v))
        C.note_read(v, '~all')
        for k, x in v.__dict__.items():
            if k in ('~serial', '~origin', '~ghost', '~k', '~gen', '~lin', '~src', '~el', '~leak', '~ver'):
                continue
            C.note_read(v, k)
            n.__dict__[k] = x
        return n
    return v


def deep(v, memo=None):
    memo = {} if memo is None else memo
    v = norm(v)
    if isinstance(v, tuple):
        return tuple(deep(x, memo) for x in v)
    if isinstance(v, (PyList, PyDict)):
        if id(v) in memo:
            return memo[id(v)]
        n = shallow(v)
        memo[id(v)] = n
        out = []
        for s in n.__dict__['~c']:
            if isinstance(s, Items):
                out.append(Items([deep(x, memo) for x in s.vals]))
            elif isinstance(s, coll.DItem):
                out.append(coll.DItem(s.k, deep(s.v, memo)))
            elif isinstance(s, coll.DDel):
                out.append(s)
            else:
                raise Unsupported('deepcopy of a symbolic collection')
        n.__dict__['~c'] = tuple(out)
        return n
    if isinstance(v, Obj):
        raise Unsupported('deepcopy of an object')
    return v


copy_mod = ns('copy', copy=shallow, deepcopy=deep)

# -- weakref ---------------------------------------------------------------------


class _NoProxy(object):
    pass


def _proxy(o, *a):
    C.trusted.add('a weak proxy behaves as its referent while that is alive')
    return o


weakref_mod = ns('weakref', proxy=_proxy, ref=_nope('weakref.ref'), ProxyType=_NoProxy, CallableProxyType=_NoProxy, ProxyTypes=(_NoProxy,))

# -- itertools / operator ------------------------------------------------------------


def _chain(*its):
    out = []
    for i in its:
        out.extend(segs_of(i))
    return mkiter(out)


def _islice(it, *a):
    return mkiter([Items(list(itertools.islice(native_list(it), *a)))])


def _repeat(x, n):
    return mkiter([Items([x] * n)])


_chain_ns = _chain
_chain_ns.from_iterable = lambda it: _chain(*native_list(it))
itertools_mod = ns('itertools', chain=_chain_ns, islice=_islice, repeat=_repeat)


def _attrgetter(n):
    def f(o):
        for p in n.split('.'):
            o = G(o, p)
        return o
    return f


def _itemgetter(n):
    return lambda o: I(o, n)


operator_mod = ns('operator', attrgetter=_attrgetter, itemgetter=_itemgetter, eq=rtl.EQ, ne=rtl.NE, lt=rtl.LT, gt=rtl.GT, le=rtl.LE, ge=rtl.GE,
                  add=lambda a, b: rtl.BIN('+', a, b), or_=lambda a, b: rtl.BIN('|', a, b), is_=rtl.IS, is_not=rtl.ISNOT,
                  getitem=I, contains=lambda a, b: rtl.IN(b, a))

# -- re ------------------------------------------------------------------------------
import re as _re
import datetime as _dt


class RePat(object):
    _vc_nativeobj = True

    def __init__(self, p):
        self.p = p
        self.pattern = p.pattern

    def __getattr__(self, n):
        if n not in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall', 'finditer'):
            raise AttributeError(n)

        def f(*a):
            na = native_of(a)
            if na is None:
                if n in ('match', 'search', 'fullmatch') and len(a) == 1:
                    s = norm(a[0])
                    if isinstance(s, Sym) and s.k == 'str':
                        f = strs.fixed(z3.simplify(s.t))
                        if f is not None and regex.digits_alike(self.p.pattern):
                            m = getattr(self.p, n)(''.join(c if isinstance(c, str) else '0' for c in f))
                            return None if m is None else ShapeMatch(self.p, m, s)
                        r = known_language(self.p, n, s)
                        if r is not None:
                            return SymMatch(self, n, s) if r else None
                        r = remember(self.p, n, s)
                        if r is not None:
                            r = C.branch(r)
                            a = automaton(self.p, n)
                            if a is not None:
                                memo_add('languages', (z3.simplify(s.t), a, bool(r)))
                            return SymMatch(self, n, s) if r else None
                        C.trusted.add('re.%s is a deterministic function of pattern and subject' % n)
                        t = z3.Function('re.%s' % n, z3.StringSort(), z3.StringSort(), z3.BoolSort())(core.zstr(self.pattern), s.t)
                        return SymMatch(self, n, s) if C.branch(t) else None
                raise Unsupported('regular expression on a symbolic string')
            try:
                return imp(getattr(self.p, n)(*na[0]))
            except Exception as e:
                raise prog(e)
        f._vc_native = True
        return f


_automata = {}


def automaton(p, how):
    if how == 'search' or p.flags & ~_re.UNICODE:
        return None
    k = (p.pattern, how)
    if k not in _automata:
        try:
            _automata[k] = regex.build(p.pattern, how)
        except (Unsupported, _re.error):
            _automata[k] = None
    return _automata[k]


def known_language(p, how, s):
    """do the languages already assumed of the text decide the match?"""
    t = z3.simplify(s.t)
    known = [(a, pol) for x, a, pol in memo_lists('languages') if x.eq(t)]
    a = automaton(p, how) if known else None
    if a is None:
        return None
    if regex.empty(known + [(a, True)]):
        C.trusted.add('regular language inclusion by pyvc/regex.py')
        return False
    if regex.empty(known + [(a, False)]):
        C.trusted.add('regular language inclusion by pyvc/regex.py')
        return True
    return None


def remember(p, how, s):
    """the condition of a match as membership in a regular language, or None"""
    pattern = p.pattern
    try:
        short = regex.ends_anchored(pattern)
        if short is not None:
            pattern = short
            how = 'fullmatch' if how == 'match' else how
            if how == 'search':
                return None
        lang = regex.language(pattern, p.flags & ~_re.UNICODE)
    except (Unsupported, _re.error):
        return None
    C.trusted.add('z3 decides the regular language of %r' % p.pattern)
    if how == 'match':
        lang = z3.Concat(lang, regex.everything())
    elif how == 'search':
        if p.pattern.startswith('^') or p.pattern.startswith('(^'):
            return None
        lang = z3.Concat(regex.everything(), lang, regex.everything())
    t = z3.simplify(s.t)
    ps = strs.parts_of(t)
    if how != 'search' and z3.is_string_value(ps[0]):
        # decide by the known beginning where that is enough
        q = z3.Solver()
        q.set('timeout', 1000)
        x = z3.String('x')
        q.add(z3.InRe(z3.Concat(ps[0], x), lang))
        if q.check() == z3.unsat:
            return z3.BoolVal(False)
    if how != 'search':
        # a character every match begins with and the string does not
        pass
    return z3.InRe(t, lang)


class ShapeMatch(object):
    """a match of a text whose digits are unknown, by a pattern that does not tell digits apart"""
    _vc_nativeobj = True

    def __init__(self, p, m, s):
        self.p, self.m, self.s = p, m, s

    def _get(self, g):
        a, b = self.m.span(g)
        return None if a < 0 else strs.s_getitem(self.s, slice(a, b))

    def group(self, *gs):
        r = tuple(self._get(g) for g in gs or (0,))
        return r if len(r) > 1 else r[0]

    def groups(self):
        return tuple(self._get(i + 1) for i in range(self.p.groups))

    def groupdict(self):
        return imp({k: self._get(v) for k, v in self.p.groupindex.items()})

    def span(self, g=0):
        return self.m.span(g)

    def start(self, g=0):
        return self.m.start(g)

    def end(self, g=0):
        return self.m.end(g)


class SymMatch(object):
    _vc_nativeobj = True

    def span(self, g=0):
        if norm(g) != 0:
            raise Unsupported('match groups of a symbolic string')
        p = getattr(self.pat, 'p', None)
        if self.how == 'fullmatch':
            return (0, mk('int', z3.Length(self.s.t)))
        if self.how != 'match' or p is None or not regex.single_class(p.pattern):
            raise Unsupported('extent of a match')
        e = C.fresh('int', 'span')
        C.fact(z3.And(e >= 0, e <= z3.Length(self.s.t)))
        C.fact((e == z3.Length(self.s.t)) == z3.InRe(self.s.t, regex.language(p.pattern)))
        return (0, mk('int', e))

    def __init__(self, pat, how, s):
        self.pat, self.how, self.s = pat, how, s

    def group(self, *a):
        raise Unsupported('match groups of a symbolic string')

    groups = groupdict = group


def _recompile(p, flags=0):
    n = native_of(p)
    if n is None:
        raise Unsupported('regular expression built from symbolic data')
    try:
        return RePat(_re.compile(n[0], flags))
    except _re.error as e:
        raise prog(e)


def _refn(n):
    def f(p, *a):
        if isinstance(p, RePat):
            return getattr(p, n)(*a)
        if native_of(p) is None:
            s = norm(a[0])
            if n in ('match', 'search', 'fullmatch') and isinstance(s, (Sym, str)) and not (isinstance(s, Sym) and s.k != 'str'):
                C.trusted.add('re.%s is a deterministic function of pattern and subject' % n)
                t = z3.Function('re.%s' % n, z3.StringSort(), z3.StringSort(), z3.BoolSort())(strs.st(norm(p)), strs.st(s))
                return SymMatch(p, n, s) if C.branch(t) else None
        return getattr(_recompile(p), n)(*a)
    return f


re_mod = ns('re', compile=_recompile, match=_refn('match'), search=_refn('search'), fullmatch=_refn('fullmatch'), sub=_nope('re.sub'),
            escape=_re.escape, IGNORECASE=_re.I, I=_re.I, VERBOSE=_re.X, X=_re.X, UNICODE=_re.U, error=_re.error)

# -- json / yaml -----------------------------------------------------------------------


JSON_SRC = '''
def key(k):
    if isinstance(k, str):
        return k
    if k is None:
        return 'null'
    if isinstance(k, bool):
        return 'true' if k else 'false'
    if isinstance(k, (int, float)):
        return str(k)
    raise TypeError('keys must be str, int, float, bool or None')

def image(v, default):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, (list, tuple)):
        return [image(x, default) for x in v]
    if isinstance(v, dict):
        return {key(k): image(v[k], default) for k in v}
    return image(default(v), default)
'''
_jsrc = []


def _jimage(o, default):
    if not _jsrc:
        m = Mod('jsonimage')
        m.__dict__['__builtins__'] = BUILTINS
        m.__dict__['_vcR'] = rtl
        exec_module(m, JSON_SRC, '<vc-prelude:json>')
        _jsrc.append(m)
    return K(_jsrc[0].image, o, default)


def _jnodefault(o):
    raise prog(TypeError('Object is not JSON serializable'))


def _jdumps(o, **k):
    """text whose reading (json.loads) is the JSON image of the value of now"""
    cls = k.pop('cls', None)
    default = k.pop('default', None)
    C.trusted.add('json.loads(json.dumps(v)) is the JSON image of v (lists for sequences, text keys, default() for other objects)')
    n = native_of(o)
    if n is not None and not isinstance(n[0], Obj):
        import json
        try:
            return json.dumps(n[0], **k)
        except (TypeError, ValueError):
            pass
    if default is None:
        default = G(K(cls), 'default') if cls is not None else _jnodefault
    img = _jimage(o, default)
    t = uheap('json.dumps', [img] + ([mkdict(k)] if k else []), 'str')
    memo_add('json', (strs.st(t), img))
    return t


def _jloads(s, **k):
    s = norm(s)
    if isinstance(s, Sym) and s.k == 'bytes' or isinstance(s, bytes):
        s = strs.by_decode(s)
    n = native_of(s)
    if n is not None:
        import json
        try:
            return imp(json.loads(n[0]))
        except Exception as e:
            raise prog(e)
    for t, img in memo_lists('json'):
        if t.eq(s.t):
            return _jcopy(img)
    C.trusted.add('json.loads is a deterministic function of its argument')
    ok = uheap('json.valid', [s], 'bool')
    if not truth(ok):
        raise prog(ValueError('invalid JSON'))
    return uheap('json.loads', [s], 'val')


def _jcopy(v):
    if isinstance(v, Obj):
        return _jimage(v, _jnodefault)
    return v


class _JSONEncoder(PObj):
    def default(self, o):
        raise prog(TypeError('not JSON serializable'))


json_mod = ns('json', dumps=_jdumps, loads=_jloads, load=_nope('json.load'), JSONEncoder=_JSONEncoder, JSONDecodeError=ValueError)


def _yload(s, *a, **k):
    C.trusted.add('yaml.load is a deterministic function of its argument')
    if not truth(uheap('yaml.valid', [s], 'bool')):
        raise prog(ValueError('invalid YAML'))
    return uheap('yaml.load', [s], 'val')


class _Loader(object):
    pass


yaml_mod = ns('yaml', load=_yload, safe_load=_yload, Loader=_Loader, SafeLoader=_Loader)

# -- base64 / uuid / datetime -------------------------------------------------------------
import base64 as _b64


def _b(name):
    def f(v, *a):
        n = native_of((v,) + a)
        if n is not None:
            try:
                return getattr(_b64, name)(*n[0])
            except Exception as e:
                raise prog(e)
        v = norm(v)
        real = name.replace('standard_', '')
        C.trusted.add('base64.%s is a deterministic function; decode inverts encode' % name)
        if isinstance(v, Sym) and v.k == 'bytes':
            inv = {'b64encode': 'b64decode', 'b64decode': 'b64encode', 'urlsafe_b64encode': 'urlsafe_b64decode', 'urlsafe_b64decode': 'urlsafe_b64encode'}[real]
            if z3.is_app(v.t) and v.t.decl().name() == 'base64.' + inv and name.endswith('decode'):
                return Sym('bytes', v.t.arg(0))
            return Sym('bytes', z3.Function('base64.' + real, core.BytesS, core.BytesS)(v.t))
        if strs.isprogstr(v) and isinstance(v, Sym) and name.endswith('decode') and v.t.decl().name() == 'base64.text':
            return f(Sym('bytes', v.t.arg(0)), *a)
        if strs.isprogstr(v) and name.endswith('encode'):
            raise prog(TypeError("a bytes-like object is required, not 'str'"))
        raise Unsupported('base64')
    return f


base64_mod = ns('base64', **{n: _b(n) for n in ('b64encode', 'b64decode', 'urlsafe_b64encode', 'urlsafe_b64decode', 'standard_b64encode', 'standard_b64decode')})

# -- random -----------------------------------------------------------------------------


def _randint(a, b):
    a, b = norm(a), norm(b)
    for x in (a, b):
        if rtl.kind(x) not in ('int', 'bool', 'real'):
            raise prog(TypeError('randint bounds'))
        if rtl.kind(x) == 'real':
            raise Unsupported('randint with real bounds')
    if truth(rtl.LT(b, a)):
        raise prog(ValueError('empty range for randrange()'))
    C.draws += 1
    if type(a) is int and type(b) is int and b - a < 4:
        C.trusted.add('random.randint(a, b) may return any integer of [a, b]')
        return a + C.choose(b - a + 1)
    r = C.fresh('int', 'rand')
    C.trusted.add('random.randint(a, b) may return any integer of [a, b]')
    C.assume(z3.And(r >= rtl.num(a)[0], r <= rtl.num(b)[0]))
    return Sym('int', r)


def _uniform(a, b):
    a, b = norm(a), norm(b)
    ta, tb, k = rtl.ops.num2(a, b)
    if k == 'int':
        ta, tb = z3.ToReal(ta), z3.ToReal(tb)
    C.draws += 1
    r = C.fresh('real', 'unif')
    C.trusted.add('random.uniform(a, b) may return any real between a and b')
    C.assume(z3.And(r >= z3.If(ta <= tb, ta, tb), r <= z3.If(ta <= tb, tb, ta)))
    return Sym('real', r)


def _choice(seq):
    C.draws += 1
    segs = segs_of(seq)
    C.trusted.add('random.choice(s) may return any element of s')
    if all(isinstance(s, Items) for s in segs):
        vals = [v for s in segs for v in s.vals]
        if not vals:
            raise prog(IndexError('Cannot choose from an empty sequence'))
        if len(vals) > 12 and all(isinstance(v, str) and len(v) == 1 for v in vals):
            r = C.fresh('str', 'ch')
            C.assume(z3.Length(r) == 1)
            C.assume(z3.InRe(r, z3.Union(*[z3.Re(core.zstr(v)) for v in sorted(set(vals))])))
            return Sym('str', r)
        return vals[C.choose(len(vals))]
    n = norm(rtl.b_len(seq))
    if truth(rtl.EQ(n, 0)):
        raise prog(IndexError('Cannot choose from an empty sequence'))
    i = C.fresh('int', 'pick')
    C.assume(z3.And(i >= 0, i < rtl.num(n)[0]))
    return I(seq, Sym('int', i))


def _random():
    C.draws += 1
    r = C.fresh('real', 'rnd')
    C.assume(z3.And(r >= 0, r < 1))
    return Sym('real', r)


random_mod = ns('random', randint=_randint, uniform=_uniform, choice=_choice, random=_random, seed=lambda *a: None, randrange=_nope('randrange'),
                sample=_nope('sample'), shuffle=_nope('shuffle'))

# -- math ------------------------------------------------------------------------------


def _round_to(up):
    nat = math.ceil if up else math.floor

    def f(v):
        v = norm(v)
        k = rtl.kind(v)
        if k in ('bool', 'int', 'real') and not isinstance(v, Sym):
            return nat(v)
        if k in ('bool', 'int'):
            return rtl.b_int(v) if k == 'bool' else v
        if k == 'real':
            C.trusted.add('floats as mathematical reals')
            t = rtl.num(v)[0]
            n = rtl.ops.floor_t(-t if up else t)
            return norm(Sym('int', z3.simplify(-n if up else n)))
        if k in ('str', 'none', 'obj'):
            raise prog(TypeError('must be a real number'))
        raise Unsupported('math of %s' % k)
    return f


math_mod = ns('math', floor=_round_to(False), ceil=_round_to(True), pi=math.pi, e=math.e, inf=math.inf)

# -- misc -------------------------------------------------------------------------------
logging_mod = ns('logging', getLogger=lambda *a: Stub(), DEBUG=10, INFO=20, WARNING=30, ERROR=40)


def _isclass(v):
    return isinstance(norm(v), type)


inspect_mod = ns('inspect', isclass=_isclass, isfunction=lambda v: isinstance(v, types.FunctionType), ismethod=lambda v: isinstance(v, types.MethodType))
imp_mod = ns('imp', find_module=_nope('imp'), load_module=_nope('imp'))


def _validate_email(*a, **k):
    C.trusted.add('validate_email is a deterministic predicate')
    return uheap('validate_email', [norm(a[0])], 'bool')


ve_mod = ns('validate_email', validate_email=_validate_email)

import os.path as _osp


def _p(name, ret):
    def f(*a):
        n = native_of(a)
        if n is not None:
            try:
                return imp(getattr(_osp, name)(*n[0]))
            except Exception as e:
                raise prog(e)
        C.trusted.add('os.path.%s is a deterministic function of its arguments' % name)
        if ret == 'pair':
            return (uheap('path.%s.0' % name, list(a), 'str'), uheap('path.%s.1' % name, list(a), 'str'))
        return uheap('path.' + name, list(a), ret)
    return f


POSIX_SRC = '''
def dirname(p):
    i = p.rfind('/') + 1
    head = p[:i]
    if head and head.rstrip('/') != '':
        head = head.rstrip('/')
    return head


def basename(p):
    return p[p.rfind('/') + 1:]


def join(a, *p):
    path = a
    for b in p:
        if b.startswith('/'):
            path = b
        elif not path or path.endswith('/'):
            path += b
        else:
            path += '/' + b
    return path


def splitext(p):
    head, sep, name = p.rpartition('/')
    stem = name.lstrip('.')
    a, dot, b = stem.rpartition('.')
    if not dot:
        return p, ''
    return head + sep + name[:len(name) - len(stem)] + a, '.' + b
'''
_psrc = []


def _posix(name):
    raw = _p(name, 'pair' if name == 'splitext' else 'str')

    def f(*a):
        a = [norm(x) for x in a]
        if native_of(tuple(a)) is not None or not all(isinstance(x, str) or isinstance(x, Sym) and x.k == 'str' for x in a):
            return raw(*a)
        if name not in ('join', 'splitext') and strs.struct_partition(z3.simplify(a[0].t), '/', True) is None:
            return raw(*a)
        if not _psrc:
            m = Mod('posixpath')
            m.__dict__['__builtins__'] = BUILTINS
            m.__dict__['_vcR'] = rtl
            exec_module(m, POSIX_SRC, '<vc-prelude:posixpath>')
            _psrc.append(m)
        return K(getattr(_psrc[0], name), *a)
    f.__name__ = name
    return f


ospath_mod = ns('os.path', dirname=_posix('dirname'), basename=_posix('basename'), join=_posix('join'), splitext=_posix('splitext'),
                isfile=_nope('file access'), isdir=_nope('file access'), exists=_nope('file access'), abspath=_nope('file access'),
                commonprefix=_p('commonprefix', 'str'), normpath=_p('normpath', 'str'), isabs=_p('isabs', 'bool'))
os_mod = ns('os', path=ospath_mod, sep='/', name='posix', environ={})

import collections as _c
import collections.abc as _cabc

COLLECTIONS_SRC = '''
class Mapping(object):
    def __getitem__(self, key):
        raise KeyError

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return NotImplemented
        return dict(self.items()) == dict(other.items())

    def __ne__(self, other):
        return not (self == other)


_missing = object()


class MutableMapping(Mapping):
    def __setitem__(self, key, value):
        raise KeyError

    def __delitem__(self, key):
        raise KeyError

    def pop(self, key, default=_missing):
        try:
            value = self[key]
        except KeyError:
            if default is _missing:
                raise
            return default
        else:
            del self[key]
            return value

    def clear(self):
        for k in list(self):
            del self[k]

    def update(self, other=(), **kwds):
        if isinstance(other, Mapping):
            for key in other:
                self[key] = other[key]
        elif hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
'''


def load_collections():
    m = Mod('collections')
    m.__dict__['__builtins__'] = BUILTINS
    m.__dict__['_vcR'] = rtl
    exec_module(m, COLLECTIONS_SRC, '<vc-prelude:collections>')
    m.OrderedDict = _ordered
    m.defaultdict = _nope('defaultdict')
    m.namedtuple = _nope('namedtuple')
    mp, mm = m.Mapping, m.MutableMapping
    ISHOOK[mp] = lambda v: isinstance(v, mp) or (isinstance(v, PyDict) and not isinstance(v, PySet))
    ISHOOK[mm] = lambda v: isinstance(v, mm) or (isinstance(v, PyDict) and not isinstance(v, PySet))
    m.abc = m
    return m


def load_dates():
    m = Mod('datetime')
    m.__dict__['__builtins__'] = BUILTINS
    m.__dict__['_vcR'] = rtl
    m.__dict__['_timetuple'] = _timetuple
    m.__dict__['_in_month'] = _in_month
    m.__dict__['_civil'] = _civil
    m.__dict__['_unknown'] = _unknown
    exec_module(m, DATES_SRC, '<vc-prelude:datetime>')
    return m


def _unknown(what):
    raise Unsupported(what)


_unknown._vc_native = True


def _civil(zone, t, n):
    t = core.lift(norm(t))
    t = z3.ToReal(t.t) if t.k == 'int' else t.t
    C.trusted.add('fromtimestamp is a deterministic function to existing dates')
    if not C.branch(z3.Function('timestamp.ok', z3.StringSort(), z3.RealSort(), z3.BoolSort())(core.zstr(zone), t)):
        raise prog(ValueError('timestamp out of range'))
    out = [z3.Function('timestamp.%d' % i, z3.StringSort(), z3.RealSort(), z3.IntSort())(core.zstr(zone), t) for i in range(n)]
    for x, lo, hi in zip(out, (1, 1, 1, 0, 0, 0, 0), (9999, 12, 31, 23, 59, 59, 999999)):
        C.fact(z3.And(x >= lo, x <= hi))
    C.fact(_in_month(*[mk('int', x) for x in out[:3]]).t)
    return tuple(mk('int', x) for x in out)


_civil._vc_native = True


IO_SRC = '''
class BytesIO(object):
    def __init__(self, initial=b''):
        self._parts = [initial]

    def write(self, b):
        if not _isbytes(b):
            raise TypeError('a bytes-like object is required')
        self._parts.append(_plain(b))

    def getvalue(self):
        return b''.join(self._parts)

    def read(self, *a):
        _unknown('reading of in-memory files')

    seek = tell = truncate = readline = read


class StringIO(object):
    def __init__(self, *a):
        _unknown('in-memory files of text')


class _Writer(object):
    def __init__(self, stream, enc):
        self.stream = stream
        self._enc = enc

    def write(self, s):
        self.stream.write(s.encode(self._enc))

    def __getattr__(self, name):
        return getattr(self.stream, name)


class _Codec(object):
    def __init__(self, enc):
        self._enc = enc

    def __call__(self, stream, errors='strict'):
        if errors != 'strict':
            _unknown('error handler of a codec')
        return _Writer(stream, self._enc)


def getwriter(enc):
    return _Codec(enc)
'''


def load_io():
    m = Mod('io')
    m.__dict__['__builtins__'] = BUILTINS
    m.__dict__['_vcR'] = rtl

    def _isbytes(v):
        v = norm(v)
        return isinstance(v, bytes) or (isinstance(v, Sym) and v.k == 'bytes')

    def _unknown(what):
        raise Unsupported(what)
    def _plain(v):
        return norm(v)
    for f in (_isbytes, _unknown, _plain):
        f._vc_native = True
        m.__dict__[f.__name__] = f
    exec_module(m, IO_SRC, '<vc-prelude:io>')
    return m


def load_uuid():
    m = Mod('uuid')
    m.__dict__['__builtins__'] = BUILTINS
    m.__dict__['_vcR'] = rtl
    S, N, Y = z3.StringSort(), z3.IntSort(), core.BytesS
    text, value, valid = z3.Function('uuid.text', N, S), z3.Function('uuid.value', S, N), z3.Function('uuid.valid', S, z3.BoolSort())
    num, by = z3.Function('uuid.number', Y, N), z3.Function('uuid.bytes', N, Y)

    def t(v):
        return core.lift(norm(v)).t

    def native(f):
        f._vc_native = True
        return f

    def _text(i):
        r = text(t(i))
        C.fact(z3.And(valid(r), value(r) == t(i), z3.Length(r) == 36))
        return Sym('str', r)

    def _value(s):
        return mk('int', value(t(s)))

    def _valid(s):
        return mk('bool', valid(t(s)))

    def _number(b):
        b = norm(b)
        r = num(t(b))
        C.fact(by(r) == t(b))
        C.fact(z3.And(r >= 0, r < 2 ** 128))
        return mk('int', r)

    def _hex(i):
        r = z3.Function('uuid.hex', N, S)(t(i))
        C.fact(z3.And(z3.Length(r) == 32, z3.InRe(r, z3.Star(z3.Union(z3.Range('0', '9'), z3.Range('a', 'f'))))))
        return Sym('str', r)

    def _bytes(i):
        r = by(t(i))
        C.fact(num(r) == t(i))
        C.fact(z3.Length(r) == 16)
        return Sym('bytes', r)

    def _isstr(v):
        return strs.isprogstr(norm(v))

    def _fresh():
        return mk('int', C.fresh('int', 'uuid4'))
    for f in (_text, _hex, _value, _valid, _number, _bytes, _isstr, _fresh, _unknown):
        m.__dict__[f.__name__] = native(f)
    exec_module(m, UUID_SRC, '<vc-prelude:uuid>')
    return m


def _in_month(year, month, day):
    y, m, d = [core.lift(x).t for x in (year, month, day)]
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    days = z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))
    return mk('bool', z3.simplify(z3.And(d >= 1, d <= days)))


_in_month._vc_native = True


def _timetuple(*a):
    if native_of(a) is None:
        raise Unsupported('timetuple of symbolic dates')
    return _dt.datetime(*native_of(a)[0]).timetuple()


_timetuple._vc_native = True


def _ordered(*a, **k):
    return rtl.b_dict(*a, **k)


NATIVE_OK = {'time', 'string', 'sys', 'decimal', '__future__', 'pathlib', 'traceback', 'types', 'textwrap'}


@model(super)
def _super(*a):
    return super(*a)


model(_six.with_metaclass)(_wm)


class Loader(object):
    """modules of the program, extracted from the repository's current source"""

    def __init__(self, repo=None, extra=None):
        self.repo = repo or REPO
        self.extra = extra or {}        # name -> file
        self.mods = {}
        self.files = {}
        self.base = {'six': six_mod, 'functools': functools_mod, 'copy': copy_mod, 'weakref': weakref_mod, 'itertools': itertools_mod,
                     'operator': operator_mod, 're': re_mod, 'json': json_mod, 'yaml': yaml_mod, 'base64': base64_mod, 'random': random_mod, 'math': math_mod,
                     'logging': logging_mod, 'inspect': inspect_mod, 'imp': imp_mod, 'validate_email': ve_mod, 'os': os_mod, 'os.path': ospath_mod,
                     'six.moves': six_mod.moves, 'six.moves.urllib': _urllib, 'six.moves.urllib.parse': _parse}

    def imp_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.load(name)
        if fromlist:
            for n in fromlist:
                if n != '*' and not hasattr(m, n) and self.path(name + '.' + n):
                    self.load(name + '.' + n)
            return m
        return self.load(name.split('.')[0])

    def path(self, name):
        if name in self.extra:
            return self.extra[name]
        if name.split('.')[0] != 'pyswagger':
            return None
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.isfile(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.base:
            return self.base[name]
        if name == 'sys':
            return ns('sys', modules=self.mods, version_info=sys.version_info, version=sys.version, maxsize=sys.maxsize, float_info=sys.float_info, path=[], platform='linux', byteorder='little')
        if name == 'collections':
            m = self.mods[name] = load_collections()
            return m
        if name == 'datetime':
            m = self.mods[name] = load_dates()
            return m
        if name in ('io', 'codecs'):
            m = self.mods['io'] = self.mods['codecs'] = load_io()
            return m
        if name == 'uuid':
            m = self.mods[name] = load_uuid()
            return m
        if name == 'vc':
            from . import vcsym
            m = self.mods[name] = vcsym.make_module(self)
            return m
        p = self.path(name)
        if p is None:
            if name.split('.')[0] in NATIVE_OK:
                return __import__(name, fromlist=['x'] if '.' in name else [])
            raise prog(ImportError(name))
        par = None
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        m = Mod('vc:' + name)
        m.__dict__['__name__'] = 'vc:' + name
        m.__dict__['__package__'] = name if p.endswith('__init__.py') else name.rsplit('.', 1)[0] if '.' in name else ''
        m.__dict__['__file__'] = p
        b = dict(BUILTINS)
        b['__import__'] = self.imp_
        m.__dict__['__builtins__'] = b
        m.__dict__['_vcR'] = rtl
        self.mods[name] = m
        if par is not None:
            setattr(par, name.rsplit('.', 1)[1], m)
        with open(p) as f:
            src = f.read()
        self.files[name] = (p, src)
        exec_module(m, src, '<vc:%s>' % name)
        return m


def exec_module(m, src, fn):
    tree = Tr(m.__name__).module(ast.parse(src))
    code = compile(tree, fn if fn.startswith('<vc') else '<vc:%s>' % fn, 'exec')
    exec(code, m.__dict__)


def _import_blocked(*a, **k):
    raise EngineError('import in prelude')


BUILTINS = dict(builtins.__dict__)
