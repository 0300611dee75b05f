"""The `vc` module seen by contracts when they run natively, on real values,
against the unmodified code under /repo (replay of counter-models, bounded search)."""
from __future__ import absolute_import
import hashlib
import random

REG = []
SYMBOLIC = False


class Skip(BaseException):
    """an assumption of the harness does not hold for this input"""


class Violation(BaseException):
    def __init__(self, label, note=''):
        self.label = label
        self.note = note


class Harness(object):
    def __init__(self, hid, prop, fn, inputs, opts):
        self.id = hid
        self.prop = prop
        self.fn = fn
        self.inputs = dict((k, _shape(v)) for k, v in inputs.items())
        self.opts = opts


def harness(hid, prop, **opts):
    inputs = opts.pop('inputs', {})

    def deco(fn):
        REG.append(Harness(hid, prop, fn, inputs, opts))
        return fn
    return deco


class State(object):
    salt = 0
    undo = []
    covers = {}
    ensures = 0


ST = State()

# ---------------------------------------------------------------------------
# shapes: gen(rng, d) -> tree, value(tree) -> python value

STRS = ['', 'a', 'b', 'ab', 'x', 'abc', '/', '~', '~0', '~1', '#', '.', '..', '~01', '/a', 'a/', 'a/b', '//', ' ', ',', '|', '\t', '\n',
        '{x}', '%20', '%', 'A', 'Z', '0', '1', '-1', '1.5', '1e3', 'true', 'false', 'True', 'None', 'null', '?', '&', '=', ':', ';', '"', "'", '\\',
        u'\u00e9', u'\u4e2d\u6587', u'\U0001f600', 'a.b', 'a,b', 'a b', '$ref', '#/a', '#/definitions/a', 'http://h/p.json', 'http://h/p.json#/a',
        'q.json#/b', 'file:///p/q', 'aGk=', '!##!', 'X-y', 'x-Y', 'password', 'email', 'date', 'date-time', 'byte']
ALPHA = list(u'aab01~/#.,| {}%?&=:-_AB') + [u'\t', u'\n', u'\u00e9', u'\u4e2d']
KEYS = ['a', 'b', 'c', 'k', 'x', 'X', '', 'a/b', 'a~b', '$ref', 'get', '200', 'default', 'id', u'\u4e2d']
INTS = [0, 1, -1, 2, 3, -2, 5, 7, 10, 100, 255, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 63, -2 ** 63 - 1]
REALS = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, 0.1, 10.0, 100.25, -7.75, 1e10]


class Opaque(object):
    pool = {}

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


def opaque(name):
    if name not in Opaque.pool:
        Opaque.pool[name] = Opaque(name)
    return Opaque.pool[name]


def real_tree(f):
    n, d = float(f).as_integer_ratio()
    return {'r': [n, d]}


def scalar_value(t):
    if isinstance(t, dict):
        if 'r' in t:
            return t['r'][0] / float(t['r'][1]) if abs(t['r'][0]) < 10 ** 300 and t['r'][1] < 10 ** 300 else float(t['r'][0] // t['r'][1])
        if 'opq' in t:
            return opaque(t['opq'])
        if 'b' in t:
            return t['b'].encode('latin-1')
    return t


class Shape(object):
    def gen(self, rng, d):
        raise NotImplementedError

    def value(self, t):
        return scalar_value(t)

    def ok(self, t):
        """is this tree in the domain (used when simplifying failing inputs)"""
        return True


def _shape(s):
    return s if isinstance(s, Shape) else OneOf(s)


# constants of the code under check (see mine.py): texts, numbers, and those new in this tree
MINED = ([], [], [], [])


def special(rng, kind):
    """an input of interest, or None"""
    r = rng.random()
    new, old = MINED[2 + kind], MINED[kind]
    if new and r < .12:
        return rng.choice(new)
    if old and r > .94:
        return rng.choice(old)
    return None


class Int(Shape):
    def __init__(self, lo=None, hi=None, ex=(), **k):
        self.lo, self.hi, self.ex = lo, hi, list(ex)

    def ok(self, t):
        return isinstance(t, int) and (self.lo is None or t >= self.lo) and (self.hi is None or t <= self.hi)

    def gen(self, rng, d):
        lo, hi = self.lo, self.hi
        s = special(rng, 1)
        if s is not None:
            s += rng.choice([0, 0, 1, -1])
            if (lo is None or s >= lo) and (hi is None or s <= hi):
                return s
        for _ in range(20):
            r = rng.random()
            if self.ex and r < .3:
                v = rng.choice(self.ex)
            elif r < .5:
                v = rng.choice(INTS)
            elif r < .6:
                v = rng.randint(-10 ** 6, 10 ** 6)
            else:
                v = rng.randint(-4, 12)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        a = lo if lo is not None else (hi - 10 if hi is not None else -10)
        b = hi if hi is not None else a + 10
        if rng.random() < .2:
            return rng.choice([a, b])
        return rng.randint(a, min(b, a + 20))


class Real(Shape):
    def __init__(self, *a, **k):
        pass

    def gen(self, rng, d):
        return real_tree(rng.choice(REALS) if rng.random() < .7 else rng.randint(-400, 400) / 8.0)


class Bool(Shape):
    def gen(self, rng, d):
        return rng.random() < .5


class Str(Shape):
    def __init__(self, no='', nonempty=False, ex=(), only=None, **k):
        self.no, self.nonempty, self.ex, self.only = no, nonempty, list(ex), only

    def ok(self, t):
        return isinstance(t, str) and (t != '' or not self.nonempty) and not any(c in t for c in self.no) and (self.only is None or all(c in self.only for c in t))

    def gen(self, rng, d):
        r = rng.random()
        s = special(rng, 0)
        if s is not None:
            c = rng.choice(ALPHA)
            s = rng.choice([s, s, s.lower(), s.upper(), s.title(), s + c, c + s, s + s, s[:-1]])
        elif self.ex and r < .45:
            s = rng.choice(self.ex)
        elif r < .75:
            s = rng.choice(STRS)
        else:
            s = u''.join(rng.choice(self.only or ALPHA) for _ in range(rng.randint(0, 6)))
        for ch in self.no:
            s = s.replace(ch, '')
        if self.only is not None:
            s = u''.join(ch for ch in s if ch in self.only)
        if self.nonempty and not s:
            s = rng.choice(['a', 'b', 'z', '0']) if self.only is None else rng.choice(self.only)
        return s


class Bytes(Shape):
    def gen(self, rng, d):
        return {'b': u''.join(chr(rng.choice([0, 10, 13, 32, 45, 65, 97, 98, 200, 255])) for _ in range(rng.randint(0, 8)))}


class Scalar(Shape):
    def __init__(self, *kinds, **k):
        self.kinds = kinds or ('none', 'bool', 'int', 'real', 'str')
        self.ex = list(k.get('ex', ()))

    def gen(self, rng, d):
        if self.ex and rng.random() < .35:
            v = rng.choice(self.ex)
            return real_tree(v) if isinstance(v, float) else v
        k = rng.choice(self.kinds)
        if k == 'none':
            return None
        if k == 'opq':
            return {'opq': 'o%d' % rng.randint(0, 3)}
        return {'bool': Bool, 'int': Int, 'real': Real, 'str': Str}[k]().gen(rng, d)


def Any(**k):
    return Scalar('none', 'bool', 'int', 'real', 'str', 'opq', **k)


class OneOf(Shape):
    def __init__(self, *vals):
        self.vals = list(vals)

    def gen(self, rng, d):
        return {'one': rng.randint(0, len(self.vals) - 1)}

    def value(self, t):
        return self.vals[t['one']]


class Union(Shape):
    def __init__(self, *shapes):
        self.shapes = [_shape(s) for s in shapes]

    def ok(self, t):
        return self.shapes[t['u']].ok(t['v'])

    def gen(self, rng, d):
        i = rng.randint(0, len(self.shapes) - 1)
        return {'u': i, 'v': self.shapes[i].gen(rng, d)}

    def value(self, t):
        return self.shapes[t['u']].value(t['v'])


def Opt(s):
    return Union(OneOf(None), s)


def Num(*a, **k):
    return Scalar('int', 'real', **k)


class ListOf(Shape):
    def __init__(self, elem, min=0, max=None, **k):
        self.elem = _shape(elem)
        self.min, self.max = min, max

    def ok(self, t):
        return isinstance(t, list) and self.min <= len(t) and (self.max is None or len(t) <= self.max) and all(self.elem.ok(x) for x in t)

    def gen(self, rng, d):
        hi = self.max if self.max is not None else self.min + 4
        n = rng.randint(self.min, hi) if rng.random() < .9 else self.min
        return [self.elem.gen(rng, d + 1) for _ in range(n)]

    def value(self, t):
        return [self.elem.value(x) for x in t]


class DictOf(Shape):
    def __init__(self, elem, keys=None, max=None, no='', **k):
        self.elem = _shape(elem)
        self.keys, self.max, self.no = keys, max, no

    def ok(self, t):
        return all(self.elem.ok(x) and not any(c in k for c in self.no) for k, x in t['d'])

    def gen(self, rng, d):
        n = rng.randint(0, 3 if self.max is None else min(self.max, 3))
        out, seen = [], set()
        for _ in range(n):
            if self.keys:
                k = rng.choice(self.keys) if rng.random() < .8 else Str().gen(rng, d)
            else:
                k = rng.choice(KEYS) if rng.random() < .75 else Str().gen(rng, d)
            if k in seen or any(ch in k for ch in self.no):
                continue
            seen.add(k)
            out.append([k, self.elem.gen(rng, d + 1)])
        return {'d': out}

    def value(self, t):
        return dict((k, self.elem.value(v)) for k, v in t['d'])


class Tup(Shape):
    def __init__(self, *shapes):
        self.shapes = [_shape(s) for s in shapes]

    def ok(self, t):
        return len(t) == len(self.shapes) and all(s.ok(x) for s, x in zip(self.shapes, t))

    def gen(self, rng, d):
        return [s.gen(rng, d) for s in self.shapes]

    def value(self, t):
        return tuple(s.value(x) for s, x in zip(self.shapes, t))


class Build(Shape):
    def __init__(self, fn, *shapes, **kw):
        self.fn = fn
        self.shapes = [_shape(s) for s in shapes]
        self.kw = dict((k, _shape(s)) for k, s in kw.items())

    def ok(self, t):
        return len(t['a']) == len(self.shapes) and all(s.ok(x) for s, x in zip(self.shapes, t['a'])) and all(self.kw[k].ok(x) for k, x in t['k'].items())

    def gen(self, rng, d):
        return {'a': [s.gen(rng, d) for s in self.shapes], 'k': dict((k, self.kw[k].gen(rng, d)) for k in sorted(self.kw))}

    def value(self, t):
        return self.fn(*[s.value(x) for s, x in zip(self.shapes, t['a'])], **dict((k, self.kw[k].value(x)) for k, x in t['k'].items()))


class Rec(Shape):
    def __init__(self, req=None, opt=None):
        self.req = dict((k, _shape(v)) for k, v in (req or {}).items())
        self.opt = dict((k, _shape(v)) for k, v in (opt or {}).items())

    def ok(self, t):
        d = dict((k, x) for k, x in t['d'])
        return all(k in d for k in self.req) and all((self.req.get(k) or self.opt[k]).ok(x) for k, x in d.items())

    def gen(self, rng, d):
        out = [[k, self.req[k].gen(rng, d)] for k in self.req]
        out += [[k, self.opt[k].gen(rng, d)] for k in self.opt if rng.random() < .45]
        return {'d': out}

    def value(self, t):
        return dict((k, (self.req.get(k) or self.opt[k]).value(v)) for k, v in t['d'])


# ---------------------------------------------------------------------------
# uninterpreted functions: deterministic, chosen by the salt of the case

def enc(v):
    if isinstance(v, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (enc(k), enc(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return '%s[%s]' % (type(v).__name__, ','.join(enc(x) for x in v))
    if v is None or isinstance(v, (bool, int, float, str, bytes, Opaque)):
        return '%s:%r' % (type(v).__name__, v)
    return '%s@%d' % (type(v).__name__, id(v))


def ufn(name, ret='str'):
    def f(*a, **k):
        h = int(hashlib.md5(('%s|%s|%s|%s' % (ST.salt, name, enc(a), enc(k))).encode('utf-8')).hexdigest()[:12], 16)
        rng = random.Random(h)
        if ret == 'str':
            return rng.choice(STRS) if h % 3 == 0 else '%s_%d' % (name, h % 100000)
        if ret == 'int':
            return Int().gen(rng, 0)
        if ret == 'bool':
            return h % 2 == 0
        if ret == 'real':
            return scalar_value(Real().gen(rng, 0))
        if ret == 'opq':
            return opaque('%s_%d' % (name, h % 100000))
        if ret == 'bytes':
            return ('%s_%d' % (name, h % 100000)).encode('ascii')
        return scalar_value(Any().gen(rng, 0))
    return f


# ---------------------------------------------------------------------------

def assume(c):
    if not c:
        raise Skip()


def ensure(c, label='post', note=''):
    ST.ensures += 1
    if not c:
        raise Violation(label, str(note))


def same(a, b, depth=0):
    if a is b:
        return True
    if depth > 60 or type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        r = len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    elif isinstance(a, dict):
        if set(a) != set(b):
            return False
        ka = dict((k, k) for k in a)
        kb = dict((k, k) for k in b)
        r = all(same(ka[k], kb[k], depth + 1) and same(a[k], b[k], depth + 1) for k in a)
    else:
        return bool(a == b)
    if not r:
        return False
    da, db = getattr(a, '__dict__', None), getattr(b, '__dict__', None)
    if da or db:
        return set(da) == set(db) and all(same(da[k], db[k], depth + 1) for k in da)
    return True


def ensure_same(a, b, label='same'):
    ensure(same(a, b), label, '%.200r vs %.200r' % (a, b) if not same(a, b) else '')


def cover(label):
    ST.covers[label] = ST.covers.get(label, 0) + 1


class Out(object):
    pass


def outcome(fn, *a, **k):
    o = Out()
    try:
        o.val = fn(*a, **k)
        o.ok, o.exc = True, None
    except Exception as e:
        o.ok, o.val, o.exc = False, None, e
    return o


MISSING = object()


def patch(o, name, v):
    old = o.__dict__.get(name, MISSING) if hasattr(o, '__dict__') else getattr(o, name)
    setattr(o, name, v)

    def undo():
        if old is MISSING:
            delattr(o, name)
        else:
            setattr(o, name, old)
    ST.undo.append(undo)


def compare_with(q):
    pass


def implies(a, b):
    return not a or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def both(*cs):
    return all(cs)


def either(*cs):
    return any(cs)


def kind_of(v):
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'real'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, Opaque):
        return 'opq'
    return type(v).__name__


__all__ = ['harness', 'Int', 'Real', 'Bool', 'Str', 'Bytes', 'Scalar', 'Any', 'OneOf', 'Union', 'Opt', 'Num', 'ListOf', 'DictOf', 'Tup', 'Build',
           'Rec', 'ufn', 'assume', 'ensure', 'same', 'ensure_same', 'cover', 'outcome', 'patch', 'implies', 'compare_with', 'iff', 'both', 'either', 'kind_of', 'SYMBOLIC']
