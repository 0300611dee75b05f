"""Run-time hooks of the extracted program, and the models of python builtins."""
import builtins
import functools
import itertools
import types
import z3
from . import core
from .core import (C, Sym, Lazy, Obj, Val, Unsupported, Infeasible, PathStop, EngineError, EngineSignal, OPS, prog, chk,
                   box, norm, force, lift, concrete, zstr, memo_get, memo_put, memo_lists, memo_add, valid, SORTS,
                   is_kind, unbox_sym, OpqS, BytesS)
from . import ops, strs, coll
from .ops import kind, issym, truth, truth_t, eq, eq_t, not_, mk, B, NUM, num, arith, compare
from .coll import (fv, PyColl, PyList, PyDict, PySet, PyFrozen, CSeg, CPath, Items, DItem, DDel, Space, Subst, Exit, LoopEnv, MISSING,
                   mklist, mksegs, mkdict, mklayers, run_loop, nonempty, inst_path, closed, forall, ishash,
                   raw_setattr, prove_same_content, explore_body, retarget, nopath, real_conds, subcond)

NATIVE_MODELS = {}


def model(*fs):
    def d(m):
        for f in fs:
            NATIVE_MODELS[id(f)] = (m, f)
        return m
    return d


# ---------------------------------------------------------------------------
# program objects

def obj_setattr(self, name, v):
    cls = type(self)
    a = getattr_static(cls, name)
    if a is not None and hasattr(type(a), '__set__'):
        a.__set__(self, v)
        return
    raw_setattr(self, name, v)


def obj_delattr(self, name):
    if name not in self.__dict__:
        raise prog(AttributeError(name))
    raw_setattr(self, name, MISSING)


def getattr_static(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]
    return None


Obj.__setattr__ = obj_setattr
Obj.__delattr__ = obj_delattr


class PObj(Obj):
    """stands for `object` as a base class"""


BASEMAP = {object: PObj, list: PyList, dict: PyDict, set: PySet, frozenset: PyFrozen}


def BASES(*bs):
    if not bs:
        return (PObj,)
    out = []
    for b in bs:
        b = BASEMAP.get(b, b) if isinstance(b, type) else b
        out.append(b)
    return tuple(out)


class PyIter(PObj):
    def __iter__(self):
        return self


def mkiter(segs):
    it = PyIter.__new__(PyIter)
    it.__dict__['~c'] = tuple(segs)
    return it


def iter_take(it):
    segs = it.__dict__['~c']
    C.note_read(it, '~c')
    raw_setattr(it, '~c', ())
    return list(segs)


class DView(PObj):
    """dict.keys() / values() / items()"""

    def __iter__(self):
        return iter(native_list(self))

    def __len__(self):
        return b_len(self.__dict__['~d'])

    def __contains__(self, x):
        d, k = self.__dict__['~d'], self.__dict__['~v']
        if k == 'k':
            return dict_contains(d, x)
        return list_contains(segs_of(self), x)

    def _set(self):
        return to_set(self)

    def __sub__(self, o):
        return self._set().difference(o)

    def __and__(self, o):
        return self._set().intersection(o)

    def __or__(self, o):
        return self._set().union(o)

    def __eq__(self, o):
        return self._set() == (o._set() if isinstance(o, DView) else o)

    __hash__ = object.__hash__


def mkview(d, k):
    v = DView.__new__(DView)
    v.__dict__['~d'] = d
    v.__dict__['~v'] = k
    return v


class Partial(PObj):
    def __call__(self, *a, **k):
        d = self.__dict__
        kw = dict(d['~kw'])
        kw.update(k)
        return K(d['~f'], *(d['~a'] + a), **kw)

    @property
    def func(self):
        return self.__dict__['~f']

    @property
    def args(self):
        return self.__dict__['~a']


def mkpartial(f, *a, **k):
    p = Partial.__new__(Partial)
    p.__dict__.update({'~f': f, '~a': a, '~kw': k})
    return p


def _clone_misc(su, v):
    if isinstance(v, types.FunctionType) and v.__closure__:
        cells = []
        ch = False
        for c in v.__closure__:
            try:
                x = c.cell_contents
            except ValueError:
                cells.append(c)
                continue
            if x is v:
                cells.append(c)
                continue
            y = su(x) if isinstance(x, (Sym, Lazy, Obj, tuple)) else x
            if y is not x:
                ch = True
            cells.append(types.CellType(y))
        if ch:
            f = types.FunctionType(v.__code__, v.__globals__, v.__name__, v.__defaults__, tuple(cells))
            f.__kwdefaults__ = v.__kwdefaults__
            return f
        return v
    if isinstance(v, types.MethodType):
        s = su(v.__self__)
        return v if s is v.__self__ else types.MethodType(v.__func__, s)
    if isinstance(v, list):
        return [su(x) for x in v]
    return None


coll._cloners.append(_clone_misc)


# ---------------------------------------------------------------------------
# import of native values

def imp(v):
    """native python value -> program value"""
    if isinstance(v, list):
        return mklist([imp(x) for x in v])
    if isinstance(v, dict):
        return mkdict({k: imp(x) for k, x in v.items()})
    if isinstance(v, frozenset):
        return mklayers([DItem(x, None) for x in v], PyFrozen)
    if isinstance(v, set):
        return mklayers([DItem(x, None) for x in v], PySet)
    if type(v) is tuple:
        return tuple(imp(x) for x in v)
    if isinstance(v, types.GeneratorType):
        return mkiter([Items([imp(x) for x in v])])
    return v


class _NoNative(Exception):
    pass


def native_of(v):
    """(python value,) when fully concrete else None"""
    try:
        return (_nat(v),)
    except _NoNative:
        return None


def _nat(v):
    while isinstance(v, Lazy):
        v = force(v)
    if isinstance(v, Sym):
        c = concrete(v)
        if isinstance(c, Sym):
            if c.k == 'val':
                c = unbox_sym(c)
                if isinstance(c, Sym):
                    raise _NoNative()
                return c
            raise _NoNative()
        return c
    if isinstance(v, tuple):
        return tuple(_nat(x) for x in v)
    if isinstance(v, PySet):
        c = v.vc_conc()
        if c is None:
            raise _NoNative()
        return set(_nat(k) for k in c)
    if isinstance(v, PyDict):
        c = v.vc_conc()
        if c is None:
            raise _NoNative()
        return {_nat(k): _nat(x) for k, x in c.items()}
    if isinstance(v, PyList):
        c = v.vc_items()
        if c is None:
            raise _NoNative()
        return [_nat(x) for x in c]
    if isinstance(v, (PyIter, DView)):
        return [_nat(x) for x in native_list(v)]
    return v


def native_list(it):
    out = []
    for s in segs_of(it):
        if not isinstance(s, Items):
            raise Unsupported('unrolling a symbolic collection')
        out.extend(s.vals)
    return out


# ---------------------------------------------------------------------------
# iteration

def segs_of(it):
    while isinstance(it, Lazy):
        it = force(it)
    it = norm(it)
    if isinstance(it, PyList):
        m = type(it).__iter__
        if m is not PyList.__iter__:
            return segs_of(m(it))
        return list(it.vc_get())
    if isinstance(it, PyIter):
        return iter_take(it)
    if isinstance(it, PyDict):
        m = type(it).__iter__
        if m is not PyDict.__iter__:
            return segs_of(m(it))
        if isinstance(it, PySet):
            return [CSeg(s.space.reordered(), s.g, s.paths, s.extra) if isinstance(s, CSeg) else s for s in entries(it, 'k')]
        return entries(it, 'k')
    if isinstance(it, DView):
        return entries(it.__dict__['~d'], it.__dict__['~v'])
    if isinstance(it, (tuple, range, list)):
        return [Items([x for x in it])] if len(it) else []
    if isinstance(it, str):
        return [Items(list(it))] if it else []
    if isinstance(it, Sym):
        if it.k == 'str':
            sp = Space('seq', 'chars', (it.t,))
            g = z3.Int('chars$g')
            C.fact(sp.length() == z3.Length(it.t))
            return [CSeg(sp, g, [CPath((), (), (Items([Sym('str', z3.SubString(it.t, g, 1))]),))])]
        if it.k in ('opq', 'bytes'):
            raise Unsupported('iteration over an opaque value')
        raise prog(TypeError("'%s' object is not iterable" % it.k))
    if isinstance(it, Obj):
        if hasattr(type(it), '__iter__'):
            r = type(it).__iter__(it)
            if r is it:
                out = []
                n = 0
                while True:
                    try:
                        out.append(type(it).__next__(it))
                    except StopIteration:
                        break
                    n += 1
                    if n > 200:
                        raise Unsupported('long iterator')
                return [Items(out)] if out else []
            return segs_of(r)
        if hasattr(type(it), '__getitem__'):
            raise Unsupported('sequence protocol iteration')
    if it is None or isinstance(it, (bool, int, float)):
        raise prog(TypeError("'%s' object is not iterable" % type(it).__name__))
    try:
        return [Items([imp(x) for x in it])]
    except TypeError as e:
        raise prog(e)


def map_entry(v, what):
    return v[0] if what == 'k' else v[1] if what == 'v' else v


def conv_entries(l, what):
    return CSeg(l.space, l.g, [CPath(p.conds, p.skolems, [Items([map_entry(o, what)]) for o in p.outs], p.owned) for p in l.paths], l.extra)


def identity_keys(l):
    """every key of the comprehension layer is the generic element itself"""
    return all(len(p.outs) <= 1 and all(isinstance(o[0], Sym) and o[0].k == 'str' and o[0].t.eq(l.g) for o in p.outs)
               for p in l.paths) and l.space.kind == 'map'


def injective(l):
    if identity_keys(l):
        return True
    if any(len(p.outs) > 1 for p in l.paths):
        return False
    ok = [True]

    def thunk():
        a, b = C.fresh(l.space.sort, 'ia'), C.fresh(l.space.sort, 'ib')
        C.assume(a != b)
        ks = []
        for x in (a, b):
            C.assume(l.space.guard(x))
            i = C.choose(len(l.paths))
            conds, outs = inst_path(l, l.paths[i], x)
            for c in conds:
                C.assume_c(c)
            if not outs:
                return
            ks.append(outs[0][0])
        r = eq_t(ks[0], ks[1])
        if r is None or (r is True and C.check() != z3.unsat):
            ok[0] = False
        elif r is not False and r is not True and C.check(r) != z3.unsat:
            ok[0] = False
    C.explore(thunk, lambda *a: None)
    return ok[0]


def entries(d, what, dups=False):
    """segments of the entries of a dict (what: k, v, i=pair)"""
    c = d.vc_conc()
    if c is not None:
        if not c:
            return []
        return [Items([k if what == 'k' else v if what == 'v' else (k, v) for k, v in c.items()])]
    layers = d.vc_get()
    if len(layers) == 1 and isinstance(layers[0], CSeg) and (dups or injective(layers[0])):
        return [conv_entries(layers[0], what)]
    out = mklist([])
    for i, l in enumerate(layers):
        if isinstance(l, DDel):
            continue
        if isinstance(l, DItem):
            segs = (Items([(l.k, l.v)]),)
        else:
            if not dups and not injective(l):
                raise Unsupported('iteration over a mapping whose keys may repeat')
            segs = (conv_entries(l, 'i'),)

        def body(kv, i=i):
            k, v = kv
            if not dups:
                r = lookup(layers[:i], k)
                if r is not None and r != 'del':
                    return None
            r = lookup(layers[i + 1:], k)
            if r == 'del':
                return None
            if r is not None:
                v = r[1]
            out.vc_append(map_entry((k, v), what))
            return None
        run_loop(segs, body)
    return list(out.vc_c)


def lookup(layers, k, any_=False):
    """('v', value), 'del' or None; with any_, some value of the key instead of the last one"""
    for l in reversed(layers):
        if isinstance(l, DItem):
            if key_eq(k, l.k):
                return ('v', l.v)
        elif isinstance(l, DDel):
            if key_eq(k, l.k):
                return 'del'
        else:
            r = lookup_cseg(l, k, any_)
            if r is not None:
                return r
    return None


def key_eq(a, b):
    if not issym(a) and not issym(b) and not isinstance(a, tuple) and not isinstance(b, tuple):
        try:
            return bool(a == b)
        except Unsupported:
            raise
    r = eq(a, b)
    return truth(r)


def lookup_cseg(l, k, any_=False):
    while isinstance(k, Lazy):
        k = force(k)
    if isinstance(k, Sym):
        kt = ('s', k.k, k.t.get_id())
    else:
        kt = ('c', type(k), k if ishash(k) else id(k))
    key = ('lk', id(l), kt)
    m = memo_get(key)
    if m is not None:
        return m[0]
    if any_ and not identity_keys(l) and not injective(l):
        key = ('lka',) + key[1:]
        m = memo_get(key)
        if m is not None:
            return m[0]
        r = _lookup_cseg(l, k, True)
    else:
        r = _lookup_cseg(l, k)
    memo_put(key, (r, l, k))
    return r


def _lookup_cseg(l, k, any_=False):
    space = l.space
    if identity_keys(l):
        k = norm(k) if not isinstance(k, Sym) or k.k != 'val' else k
        if isinstance(k, Sym) and k.k == 'val':
            if not C.branch(Val.is_vs(k.t)):
                return None
            w = Val.s(k.t)
        elif kind(k) == 'str':
            w = lift(k).t
        else:
            return None
        dom = space.guard(w)
        if l.extra is not None:
            dom = z3.And(dom, z3.substitute(l.extra, (l.g, w)))
        paths = [p for p in l.paths]
        insts = [inst_path(l, p, w) for p in paths]
        some = [z3.And(*([dom] + conds)) if outs else None for conds, outs in insts]
        live = [i for i, f in enumerate(some) if f is not None]
        neg = z3.And(*[nopath(paths[i], l.g, w, [dom]) for i in live]) if live else z3.BoolVal(True)
        j = C._decide(lambda j: neg if j == len(live) else some[live[j]], len(live) + 1)
        if j == len(live):
            return None
        return ('v', insts[live[j]][1][0][1])
    inj = injective(l)
    w = C.fresh(space.sort, 'lw')
    q = C.fresh(space.sort, 'lq')

    def match(x, p, o, su=None):
        kk = o[0] if su is None else su(o[0])
        r = eq_t(kk, k)
        if r is None:
            raise Unsupported('lookup with user-defined equality')
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def dom(x):
        f = space.guard(x)
        if l.extra is not None:
            f = z3.And(f, z3.substitute(l.extra, (l.g, x)))
        return f

    def nomatch(x):
        fs = []
        for p in l.paths:
            for o in p.outs:
                su = Subst([(l.g, x)], [p.owned])
                fs.append(nopath(p, l.g, x, [match(x, p, o, su)]))
        return z3.And(*fs) if fs else z3.BoolVal(True)
    opts = []
    for p in l.paths:
        if len(p.outs) > 1:
            raise Unsupported('lookup in a comprehension with several entries per element')
        for o in p.outs:
            conds, outs = inst_path(l, p, w)
            f = [dom(w)] + conds + [match(w, p, outs[0])]
            if not inj and not any_:
                f.append(forall([q], z3.Implies(z3.And(dom(q), space.after(q, w)), nomatch(q))))
            opts.append((z3.And(*f), outs[0][1]))
    none = forall([q], z3.Implies(dom(q), nomatch(q)))
    j = C._decide(lambda j: none if j == len(opts) else opts[j][0], len(opts) + 1)
    if j == len(opts):
        return None
    return ('v', opts[j][1])


_nomiss = object()


def has_gen(v, depth=0):
    """does the value contain a clone of an object owned by a comprehension?"""
    if isinstance(v, Obj):
        return '~gen' in v.__dict__
    if isinstance(v, tuple):
        return any(has_gen(x) for x in v)
    return False


def dict_get(d, k, any_=False):
    """('v', value) or None"""
    while isinstance(k, Lazy):
        k = force(k)
    if isinstance(k, Sym):
        k = concrete(k)
        if isinstance(k, Sym) and k.k == 'val':
            u = unbox_sym(k)
            k = u
    if isinstance(k, (PyList, PyDict)) and not isinstance(k, PyFrozen):
        raise prog(TypeError('unhashable type'))
    c = d.vc_conc_raw()
    if len(C.frames) > 1:
        C.note_kread(d, k)
    if c is not None and ishash(k):
        try:
            if k in c:
                return ('v', c[k])
            return None
        except TypeError as e:
            raise prog(e)
    r = lookup(d.__dict__['~c'], k, any_)
    if r == 'del':
        return None
    if any_:
        return r
    if r is not None and has_gen(r[1]):
        v = r[1]
        if isinstance(v, Obj):
            # make the element addressable so that later mutation is seen
            v.__dict__.pop('~gen')
            d.vc_put(k, v)
        else:
            raise Unsupported('tuple of generic objects')
    return r


def dict_contains(d, k):
    return dict_get(d, k, True) is not None


def list_contains(segs, x):
    fs = []
    for s in coll.flat(segs):
        if isinstance(s, Items):
            for v in s.vals:
                r = eq_t(v, x)
                if r is True:
                    return True
                if r is False:
                    continue
                if r is None:
                    if truth(eq(v, x)):
                        return True
                    continue
                fs.append(r)
        else:
            f = cseg_exists(s, x)
            if f is None:
                if fs and C.branch(z3.Or(*fs)):
                    return True
                fs = []
                if run_loop((s,), lambda v: Exit('break') if truth(eq(v, x)) else None) is not None:
                    return True
            else:
                fs.append(f)
    if not fs:
        return False
    return B(z3.Or(*fs))


def cseg_exists(s, x):
    """z3 formula: some element equals x (None when it needs forks)"""
    fs = []
    q = C.fresh(s.space.sort, 'e')
    for p in s.paths:
        su = Subst([(s.g, q)], [p.owned])
        for o in p.outs:
            if not isinstance(o, Items):
                return None
            for v in o.vals:
                v = su(v)
                if isinstance(v, Obj) or isinstance(v, Lazy):
                    return None
                r = eq_t(v, x)
                if r is None:
                    return None
                if r is False:
                    continue
                cs = [s.space.guard(q)] + [su.term(c) for c in p.conds]
                if s.extra is not None:
                    cs.append(z3.substitute(s.extra, (s.g, q)))
                if r is not True:
                    cs.append(r)
                fs.append(z3.Exists([q] + list(p.skolems), z3.And(*cs)))
    return z3.Or(*fs) if fs else z3.BoolVal(False)


# ---------------------------------------------------------------------------
# loop hooks

class _Brk(Exit):
    pass


_BRK = Exit('break')


def RET(v):
    return Exit('return', v)


def BRK():
    return _BRK


def ISRET(r):
    return r is not None and r.kind == 'return'


def NOTBRK(r):
    return r is None or r.kind != 'break'


def LOOPHEAD():
    return [None, None, None]


def RETRY(m):
    """start of an iteration of a loop that carries no variable from one iteration
    to the next: when the previous one drew random values and wrote nothing that
    existed before the loop, the state is the one at the start of the loop, so this
    iteration is one already explored as the first one"""
    if m[0] is None:
        m[0], m[1], m[2] = len(C.journal), C.serial, C.draws
        return
    if C.draws > m[2] and not any(getattr(w[1], 'writes', True) and (w[0] is None or w[0].serial <= m[1]) for w in C.journal[m[0]:]):
        C.trusted.add('a loop that draws until it finds a new value ends')
        raise core.Infeasible()


def TICK():
    C.ticks = getattr(C, 'ticks', 0) + 1
    if C.deadline:
        import time
        if time.time() > C.deadline:
            raise core.Budget('time')
    fr = C.frames[-1] if C.frames else None
    if fr is not None:
        n = fr.memo.get('ticks', 0) + 1
        fr.memo['ticks'] = n
        if n > 3000:
            raise Unsupported('loop does not terminate within the exploration bound')


def FOR(it, body, names, rd, wr, carried):
    segs = segs_of(it)
    if all(isinstance(s, Items) for s in segs):
        for s in segs:
            for v in s.vals:
                r = body(v)
                if r is not None:
                    return r
        return None
    env = LoopEnv(names, rd, wr, carried) if rd else None
    r = run_loop(segs, body, env)
    if r is not None and r.kind == 'raise':
        raise r.val
    return r


def NATIVE_ITER(it):
    return native_list(it)


def COMP(f):
    l = mklist([])
    f(l)
    return l


def COMPG(f):
    l = mklist([])
    f(l)
    return mkiter(l.vc_c)


def COMPS(f):
    l = mklist([])
    f(l)
    return to_set(l)


def COMPD(f):
    d = mkdict({})
    f(d)
    return d


def CADD(l, v):
    l.vc_append(v)


def CADDKV(d, k, v):
    d.vc_put(conck(k), v)


def conck(k):
    if isinstance(k, Sym):
        return concrete(k) if k.k != 'val' else (unbox_sym(k))
    return k


def GEN():
    return mklist([])


def YIELD(g, v):
    g.vc_append(v)
    return None


def YIELDFROM(g, it):
    for s in segs_of(it):
        g.vc_append_seg(s)


def GENEND(g):
    return mkiter(g.vc_get())


def UNPACK(x, n):
    x = norm(x)
    if isinstance(x, tuple):
        if len(x) != n:
            raise prog(ValueError('unpack'))
        return x
    vals = native_list(x)
    if len(vals) != n:
        raise prog(ValueError('not enough values to unpack'))
    return vals


# ---------------------------------------------------------------------------
# operators

def IS(a, b):
    while isinstance(a, Lazy):
        a = force(a)
    while isinstance(b, Lazy):
        b = force(b)
    if a is b:
        return True
    if isinstance(b, Sym) and not isinstance(a, Sym):
        a, b = b, a
    if isinstance(a, Sym):
        if b is None:
            return B(Val.is_none(a.t)) if a.k == 'val' else False
        if isinstance(b, bool):
            if a.k == 'val':
                return B(a.t == Val.vb(z3.BoolVal(b)))
            if a.k == 'bool':
                return B(a.t if b else z3.Not(a.t))
            return False
        if isinstance(b, Sym):
            if a.k == b.k and a.t.eq(b.t):
                return True
            if a.k in ('val', 'opq') or b.k in ('val', 'opq'):
                return B(box(a) == box(b))
            if a.k == b.k == 'bool':
                return B(a.t == b.t)
            return False
        if isinstance(b, Obj) or isinstance(b, type):
            return B(box(a) == box(b)) if a.k in ('val', 'opq') else False
        return eq(a, b) if type(b) in (int, str) else False
    if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)) and type(a) is type(b):
        return a == b
    if isinstance(a, Obj) and isinstance(b, Obj):
        return same_origin(a, b)
    return False


def same_origin(a, b):
    """the same part of the input, at indices that may be equal"""
    oa, ob = a.__dict__.get('~origin'), b.__dict__.get('~origin')
    if oa is None or ob is None or oa[0] is not ob[0] or len(oa[1]) != len(ob[1]):
        return False
    if any(x.sort() != y.sort() for x, y in zip(oa[1], ob[1])):
        return False
    return B(z3.And(*[x == y for x, y in zip(oa[1], ob[1])]))


def ISNOT(a, b):
    return not_(IS(a, b))


def IN(a, b):
    b = norm(b)
    a = norm_keep(a)
    if isinstance(b, Sym):
        if b.k == 'str':
            a = strs.need_str(a)
            return B(strs.contains_t(b.t, strs.st(a)))
        if b.k in ('opq', 'bytes'):
            raise Unsupported('membership in an opaque value')
        raise prog(TypeError("argument of type '%s' is not iterable" % b.k))
    if isinstance(b, str):
        a = strs.need_str(a)
        if isinstance(a, str):
            return a in b
        return B(z3.Contains(strs.st(b), strs.st(a)))
    if isinstance(b, (tuple, range)):
        return list_contains([Items(list(b))], a)
    if isinstance(b, Obj):
        f = getattr(type(b), '__contains__', None)
        if f is not None:
            return f(b, a)
        return list_contains(segs_of(b), a)
    try:
        return a in b
    except Exception as e:
        raise prog(e)


def NOTIN(a, b):
    return not_(IN(a, b))


def norm_keep(a):
    while isinstance(a, Lazy):
        a = force(a)
    return a


EQ = eq


def NE(a, b):
    a0 = norm_keep(a)
    if isinstance(a0, Obj):
        f = getattr(type(a0), '__ne__')
        if f is not object.__ne__:
            return f(a0, b)
    return not_(eq(a, b))


def LT(a, b):
    return compare('<', a, b)


def LE(a, b):
    return compare('<=', a, b)


def GT(a, b):
    return compare('>', a, b)


def GE(a, b):
    return compare('>=', a, b)


NOT = not_


def BIN(op, a, b):
    if not isinstance(a, (Sym, Lazy, Obj, tuple)) and not isinstance(b, (Sym, Lazy, Obj, tuple)):
        return arith(op, a, b)
    if op == '%' and isinstance(norm(a), str):
        return strs.percent(norm(a), norm(b))
    a, b = norm(a), norm(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
        return a + b
    if isinstance(a, Obj) and not isinstance(a, Sym):
        nm = {'+': 'add', '-': 'sub', '*': 'mul', '|': 'or', '&': 'and', '^': 'xor', '%': 'mod'}.get(op)
        f = getattr(type(a), '__%s__' % nm, None)
        if f is not None:
            r = f(a, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, Obj):
            f = getattr(type(b), '__r%s__' % nm, None)
            if f is not None:
                return f(b, a)
        raise prog(TypeError('unsupported operand'))
    if isinstance(b, Obj):
        nm = {'+': 'add', '-': 'sub', '*': 'mul', '|': 'or', '&': 'and', '^': 'xor'}.get(op)
        f = getattr(type(b), '__r%s__' % nm, None)
        if f is not None:
            return f(b, a)
        if op == '*' and isinstance(b, PyList):
            return b * a
        raise prog(TypeError('unsupported operand'))
    return arith(op, a, b)


def IOP(op, a, b):
    a = norm(a)
    if isinstance(a, PyList) and op == '+':
        a.extend(b)
        return a
    if isinstance(a, PySet) and op == '|':
        a.update(b)
        return a
    return BIN(op, a, b)


def L(*a):
    return mklist([x for x in a])


def D(*a):
    d = mkdict({})
    for i in range(0, len(a), 2):
        if a[i] is MISSING:
            d.update(a[i + 1])
        else:
            k = conck(norm_keep(a[i]))
            d.vc_put(k, a[i + 1])
    return d


def S(*a):
    return mklayers([DItem(conck(norm_keep(x)), None) for x in a], PySet)


def KWARGS(d):
    return mkdict(d) if isinstance(d, dict) else d


def STAR(v):
    if isinstance(v, tuple):
        return v
    return native_list(v)


def FMT(v, conv, spec):
    spec = spec if isinstance(spec, str) else ''
    return strs.fmt_value(v, spec, {114: 'r', 115: 's'}.get(conv))


def FSTR(*parts):
    out = ''
    for p in parts:
        out = strs.cat(out, p)
    return out


def EXC(t):
    return t


def CHK(e):
    chk(e)


def RAISE(e):
    e = norm(e)
    if isinstance(e, type):
        e = e()
    if not isinstance(e, BaseException):
        raise prog(TypeError('exceptions must derive from BaseException'))
    return prog(e)


# ---------------------------------------------------------------------------
# attributes, subscripts

STR_ATTRS = set(dir(''))
BYTES_ATTRS = set(dir(b''))


def type_of(v):
    while isinstance(v, Lazy):
        v = force(v)
    v = norm(v)
    if isinstance(v, Sym):
        if v.k == 'opq':
            return OpaqueType
        return {'bool': bool, 'int': int, 'real': float, 'str': str, 'bytes': bytes}[v.k]
    t = type(v)
    return {PyList: list, PyDict: dict, PySet: set, PyFrozen: frozenset, PObj: object}.get(t, t)


class OpaqueType(object):
    pass


def G(o, name):
    if isinstance(o, Lazy):
        o = norm(o)
    if isinstance(o, Sym):
        return OPS.op_getattr(o, name)
    if isinstance(o, bytes) and name == 'join':
        return strs.BMethod(o, name)
    if isinstance(o, str):
        if name in STR_ATTRS and not name.startswith('__'):
            return strs.SMethod(o, name)
        if name == '__class__':
            return str
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise prog(e)
    if isinstance(o, Obj):
        if name == '__class__':
            return type_of(o)
        if name == '__dict__':
            raise Unsupported('__dict__ of an instance')
        d = o.__dict__
        if C.frames and len(C.frames) > 1:
            C.note_read(o, name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            if e.__traceback__.tb_next is None:
                prog(e)
            raise
    if isinstance(o, type):
        m = BASEMAP.get(o)
        if m is not None:
            if name in ('__name__', '__class__', '__mro__', '__module__'):
                return getattr(o, name)
            o = m
        elif o is str and not name.startswith('__'):
            return lambda s, *a, **k: K(G(s, name), *a, **k)
        if name == '__mro__':
            return tuple({PObj: object, PyList: list, PyDict: dict, PySet: set}.get(c, c) for c in o.__mro__
                         if c not in (Obj, PyColl, object)) + (() if PObj in o.__mro__ else (object,))
        if name == '__dict__':
            return mkdict({k: v for k, v in o.__dict__.items() if not k.startswith('~')})
    try:
        return getattr(o, name)
    except AttributeError as e:
        if e.__traceback__.tb_next is None:
            prog(e)
        raise
    except TypeError as e:
        raise prog(e)


def op_getattr(s, name):
    if name.startswith('__') and name not in ('__class__', '__str__', '__len__', '__contains__', '__iter__', '__name__'):
        if name in ('__deepcopy__', '__copy__', '__array__', '__index__'):
            raise AttributeError(name)
    v = norm(s)
    if not isinstance(v, Sym):
        if isinstance(s, Sym) or isinstance(s, Lazy):
            return G(v, name)
    if name == '__class__':
        return type_of(v)
    if v.k == 'str' and name in STR_ATTRS:
        return strs.SMethod(v, name)
    if v.k == 'bytes' and name in BYTES_ATTRS:
        return strs.BMethod(v, name)
    if v.k == 'opq':
        raise Unsupported('attribute %s of an opaque value' % name)
    raise prog(AttributeError("'%s' object has no attribute '%s'" % (v.k, name)))


OPS.op_getattr = op_getattr
OPS.op_contains = lambda s, x: IN(x, s)


def _op_iter(s):
    v = norm(s)
    if isinstance(v, Sym):
        return iter(native_list(v))
    return iter(v)


OPS.op_iter = _op_iter


def I(o, i):
    o = norm(o)
    if isinstance(o, Obj):
        f = getattr(type(o), '__getitem__', None)
        if f is None:
            raise prog(TypeError("'%s' object is not subscriptable" % type(o).__name__))
        return f(o, norm_keep(i))
    if isinstance(o, Sym):
        if o.k == 'str':
            return strs.s_getitem(o, i if isinstance(i, slice) else norm(i))
        if o.k in ('opq', 'bytes'):
            raise Unsupported('subscript of an opaque value')
        raise prog(TypeError("'%s' object is not subscriptable" % o.k))
    if isinstance(o, (str, tuple, bytes, range)):
        if isinstance(i, slice):
            i2 = slice(norm(i.start), norm(i.stop), norm(i.step))
            if any(isinstance(x, Sym) for x in (i2.start, i2.stop)):
                if isinstance(o, str):
                    return strs.s_getitem(o, i)
                raise Unsupported('symbolic slice of a tuple')
            return o[i2]
        i = norm(i)
        if isinstance(i, Sym):
            if isinstance(o, str):
                return strs.s_getitem(o, i)
            if i.k not in ('int', 'bool'):
                raise prog(TypeError('indices must be integers'))
            for j in range(len(o)):
                if truth(eq(i, j)) or truth(eq(i, j - len(o))):
                    return o[j]
            raise prog(IndexError('index out of range'))
        try:
            return o[i]
        except (IndexError, TypeError) as e:
            raise prog(e)
    if isinstance(o, type):
        return o
    try:
        return imp(o[i])
    except (IndexError, TypeError, KeyError) as e:
        raise prog(e)


OPS.op_getitem = lambda s, i: I(s, i)


# ---------------------------------------------------------------------------
# calls

def has_sym(v, depth=0):
    if isinstance(v, (Sym, Lazy)):
        return True
    if isinstance(v, Obj):
        return native_of(v) is None
    if isinstance(v, (tuple, list)):
        return any(has_sym(x) for x in v)
    return False


def is_prog_callable(f):
    if isinstance(f, types.FunctionType):
        return f.__code__.co_filename.startswith('<vc') or '_vcR' in f.__globals__
    if isinstance(f, types.MethodType):
        return True
    return False


def K(f, /, *a, **k):
    while isinstance(f, Lazy):
        f = force(f)
    m = NATIVE_MODELS.get(id(f))
    if m is not None:
        return m[0](*a, **k)
    tf = type(f)
    if (tf is types.FunctionType and (f.__code__.co_filename.startswith('<vc') or f.__code__.co_filename.startswith(core.HERE))) or \
            (tf is types.MethodType and getattr(f.__func__, '__code__', None) is not None and
             (f.__func__.__code__.co_filename.startswith('<vc') or f.__func__.__code__.co_filename.startswith(core.HERE))):
        if C.called is not None:
            fn = f.__func__ if tf is types.MethodType else f
            co = getattr(fn, '__code__', None)
            if co is not None and co.co_filename.startswith('<vc'):
                C.called.add((co.co_filename, getattr(fn, '__qualname__', co.co_name), co.co_firstlineno))
        C.depth = getattr(C, 'depth', 0) + 1
        if C.depth > 400:
            C.depth = 0
            raise Unsupported('deep recursion')
        try:
            return f(*a, **k)
        except TypeError as e:
            if e.__traceback__.tb_next is None:
                prog(e)
            raise
        finally:
            C.depth -= 1
    if isinstance(f, (strs.SMethod, strs.BMethod)):
        return f(*a, **k)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*a, **k)
        if issubclass(f, Obj) or isinstance(f, type) and f.__module__.startswith('vc:'):
            try:
                return f(*a, **k)
            except TypeError as e:
                if e.__traceback__.tb_next is None:
                    prog(e)
                raise
    if isinstance(f, (Obj, Sym)):
        c = getattr(type(f), '__call__', None)
        if isinstance(f, Sym) or c is None:
            raise prog(TypeError('object is not callable')) if not (isinstance(f, Sym) and f.k == 'opq') else Unsupported('call of an opaque value')
        return c(f, *a, **k)
    if not callable(f):
        raise prog(TypeError("'%s' object is not callable" % type(f).__name__))
    if getattr(f, '_vc_native', False) or getattr(getattr(f, '__self__', None), '_vc_nativeobj', False):
        return f(*a, **k)
    # native code: only on fully concrete arguments
    if isinstance(f, type) and issubclass(f, type) or f is type.__new__:
        try:
            return f(*a, **k)
        except TypeError as e:
            prog(e)
            raise
    s = getattr(f, '__self__', None)
    if isinstance(s, dict) or isinstance(s, list):
        # class namespaces inside a metaclass
        return imp(f(*a, **k)) if getattr(f, '__name__', '') not in ('get', 'pop', 'setdefault') else f(*a, **k)
    na = native_of(tuple(a))
    nk = native_of(tuple(k.values()))
    if na is None or nk is None:
        raise Unsupported('native %s on symbolic arguments' % getattr(f, '__name__', f))
    try:
        r = f(*na[0], **dict(zip(k.keys(), nk[0])))
    except Exception as e:
        raise prog(e)
    return imp(r)


def KW(f, a, extra, **k):
    if isinstance(f, strs.SMethod) and f.name == 'format':
        if isinstance(f.s, Sym):
            from .vcsym import uheap
            ds = list(extra)
            if len(ds) == 1 and not k and not a:
                return uheap('str.format', [f.s, ds[0]], 'str')
            raise Unsupported('symbolic format template')
        if len(extra) == 1 and not k and isinstance(norm(extra[0]), PyDict) and norm(extra[0]).vc_conc() is None:
            raise Unsupported('format with symbolic keys')
    kw = dict(k)
    for e in extra:
        e = norm(e)
        if isinstance(e, PyDict):
            c = e.vc_conc()
            if c is None:
                # a callee that takes **kwargs only receives the mapping itself
                if not a and not kw and len(extra) == 1:
                    return call_kw(f, e)
                raise Unsupported('** with symbolic keys')
            kw.update(c)
        elif isinstance(e, Obj) and hasattr(type(e), 'keys'):
            for kk in native_list(e.keys()):
                kw[kk] = I(e, kk)
        else:
            raise prog(TypeError('argument after ** must be a mapping'))
    for n in kw:
        if not isinstance(n, str):
            raise prog(TypeError('keywords must be strings'))
    return K(f, *a, **kw)


def call_kw(f, d):
    """f(**d) with symbolic keys: f must be def f(..., **k) ; the mapping is copied"""
    fn = f
    pre = ()
    if isinstance(f, Obj):
        fn = type(f).__call__
        pre = (f,)
    elif isinstance(f, types.MethodType):
        fn, pre = f.__func__, (f.__self__,)
    co = getattr(fn, '__code__', None)
    if co is None or not co.co_flags & 0x08 or co.co_argcount != len(pre) or co.co_kwonlyargcount:
        raise Unsupported('** with symbolic keys')
    for n in co.co_varnames[:len(pre)]:
        if C.branch(truth(dict_contains(d, n))):
            raise prog(TypeError("got multiple values for argument '%s'" % n))
    C.kwdict = mklayers(d.vc_get())
    return fn(*pre, **{'~vckw': C.kwdict})


def KWARGS(d):
    if isinstance(d, dict):
        if '~vckw' in d:
            return d['~vckw']
        return mkdict(d)
    return d


# ---------------------------------------------------------------------------
# list / dict / set methods

def _m(cls):
    def d(f):
        n = f.__name__
        setattr(cls, n[2:] if n.startswith('m_') else n, f)
        return f
    return d


def list_len(segs):
    n = 0
    t = []
    for s in segs:
        if isinstance(s, Items):
            n += len(s.vals)
        else:
            t.append(cseg_len(s))
    if not t:
        return n
    return mk('int', z3.Sum([z3.IntVal(n)] + t))


def cseg_len(s):
    if s.space.kind == 'seq' and s.extra is None and len(s.paths) >= 1 and \
            all(len(p.outs) == 1 and isinstance(p.outs[0], Items) and len(p.outs[0].vals) == 1 for p in s.paths) and total(s):
        n = s.space.length()
        C.fact(n >= 0)
        return n
    if s.space.kind == 'seq' and s.extra is None and all(len(p.outs) == 1 and isinstance(p.outs[0], Items) and len(p.outs[0].vals) == len(s.paths[0].outs[0].vals) for p in s.paths) and total(s):
        n = s.space.length()
        C.fact(n >= 0)
        return n * len(s.paths[0].outs[0].vals)
    m = memo_get(('len', id(s)))
    if m is not None:
        return m[0]
    # the number of elements is an unknown that is 0 exactly when there is none
    for old, t in memo_lists('lens'):
        if prove_same_content('list', (old,), (s,)):
            memo_put(('len', id(s)), (t, s))
            return t
    n = C.fresh('int', 'len')
    memo_put(('len', id(s)), (n, s))
    memo_add('lens', (s, n))
    C.fact(n >= 0)
    if nonempty((s,)):
        C.assume(n >= 1)
    else:
        C.assume(n == 0)
    return n


def total(s):
    """every element of the space takes some path (true by construction when the
    comprehension covers all paths of its loop body, checked here when it has conditions)"""
    if any(not real_conds(p) for p in s.paths):
        return True
    m = memo_get(('total', id(s)))
    if m is not None:
        return m[0]
    g = C.fresh(s.space.sort, 'tg')
    fs = []
    for p in s.paths:
        sk = set(k.get_id() for k in p.skolems)
        fs += [z3.substitute(c, (s.g, g)) for c in p.conds if c.get_id() in C.facts and not (sk & fv(c))]
    f = z3.And(*([s.space.guard(g)] + fs + [nopath(p, s.g, g) for p in s.paths]))
    r = C.check(f) == z3.unsat
    memo_put(('total', id(s)), (r, s))
    return r


def list_at(segs, i):
    """element i (python index, possibly symbolic) of segments"""
    i = norm(i)
    if isinstance(i, bool):
        i = int(i)
    if kind(i) not in ('int', 'bool'):
        raise prog(TypeError('list indices must be integers or slices'))
    if isinstance(i, int):
        segs = list(segs)
        if i >= 0:
            n = i
            for s in segs:
                if isinstance(s, Items):
                    if n < len(s.vals):
                        return s.vals[n]
                    n -= len(s.vals)
                elif simple(s):
                    ln = s.space.length()
                    C.fact(ln >= 0)
                    if C.branch(ln > n):
                        return elem(s, z3.IntVal(n))
                    # the remaining offset depends on the length
                    for m in range(n + 1):
                        if C.branch(ln == m):
                            n -= m
                            break
                elif n == 0:
                    r = run_loop((s,), lambda v: Exit('break', v))
                    if r is not None:
                        return last_exit(r)
                else:
                    raise Unsupported('index into a filtered collection')
            raise prog(IndexError('list index out of range'))
        n = -i - 1
        for s in reversed(segs):
            if isinstance(s, Items):
                if n < len(s.vals):
                    return s.vals[len(s.vals) - 1 - n]
                n -= len(s.vals)
            elif simple(s):
                ln = s.space.length()
                C.fact(ln >= 0)
                if C.branch(ln > n):
                    return elem(s, ln - 1 - n)
                for m in range(n + 1):
                    if C.branch(ln == m):
                        n -= m
                        break
            else:
                raise Unsupported('negative index into a filtered collection')
        raise prog(IndexError('list index out of range'))
    if all(isinstance(s, Items) for s in segs):
        vals = [v for s in segs for v in s.vals]
        for j, v in enumerate(vals):
            if truth(eq(i, j)) or truth(eq(i, j - len(vals))):
                return v
        raise prog(IndexError('list index out of range'))
    if len(segs) == 1 and simple(segs[0]):
        s = segs[0]
        ln = s.space.length()
        t = num(i)[0]
        if C.branch(z3.And(t >= 0, t < ln)):
            return elem(s, t)
        if C.branch(z3.And(t < 0, t >= -ln)):
            return elem(s, t + ln)
        raise prog(IndexError('list index out of range'))
    raise Unsupported('symbolic index into a composite list')


def last_exit(r):
    return r.val


def simple(s):
    """one element per index"""
    return s.space.kind == 'seq' and s.extra is None and all(
        len(p.outs) == 1 and isinstance(p.outs[0], Items) and len(p.outs[0].vals) == 1 for p in s.paths) and total(s)


def elem(s, t):
    i = C.choose(len(s.paths))
    conds, outs = inst_path(s, s.paths[i], t)
    for c in conds:
        C.assume_c(c)
    if conds and C.check() == z3.unsat:
        raise Infeasible()
    return outs[0].vals[0]


def list_init(self, it=None):
    if it is not None:
        self.vc_set(tuple(segs_of(it)))


PyList.__init__ = list_init


def _install_list():
    m = _m(PyList)

    @m
    def __iter__(self):
        vals = self.vc_items()
        if vals is None:
            return iter(sym_iter(self))
        return iter(vals)

    @m
    def __len__(self):
        n = list_len(self.vc_get())
        if isinstance(n, Sym):
            raise Unsupported('native len of a symbolic list')
        return n

    @m
    def __bool__(self):
        return nonempty(self.vc_get())

    @m
    def __contains__(self, x):
        return list_contains(self.vc_get(), x)

    @m
    def __getitem__(self, i):
        if isinstance(i, slice):
            return list_slice(self, i)
        return list_at(self.vc_get(), i)

    @m
    def __setitem__(self, i, v):
        i = norm(i)
        if isinstance(i, Sym) and i.k == 'int' and not all(isinstance(s, Items) for s in self.__dict__['~c']):
            segs = self.__dict__['~c']
            r = coll.store_after(segs, i.t, v)
            if r is not None:
                self.vc_get()
                self.vc_set(r)
                return
            self.vc_set(segs + (coll.Store(i.t, v),))
            return
        vals = self.vc_items()
        if vals is None or isinstance(i, Sym) or isinstance(i, slice):
            raise Unsupported('store into a symbolic list')
        try:
            vals[i] = v
        except IndexError as e:
            raise prog(e)
        self.vc_set((Items(vals),))

    @m
    def __delitem__(self, i):
        vals = self.vc_items()
        if vals is None or isinstance(norm(i), Sym):
            raise Unsupported('del on a symbolic list')
        try:
            del vals[i]
        except IndexError as e:
            raise prog(e)
        self.vc_set((Items(vals),))

    @m
    def __eq__(self, o):
        o = norm_keep(o)
        if isinstance(o, Sym):
            o = norm(o)
            if isinstance(o, Sym) and o.k == 'opq':
                return B(box(self) == box(o))
        if not isinstance(o, PyList):
            return False
        return list_eq(self, o)

    @m
    def __ne__(self, o):
        return not_(self.__eq__(o))

    @m
    def __add__(self, o):
        o = norm(o)
        if not isinstance(o, PyList):
            raise prog(TypeError('can only concatenate list'))
        return mksegs(strs.merge_items(list(self.vc_get()) + list(o.vc_get())))

    @m
    def __mul__(self, n):
        n = norm(n)
        if isinstance(n, int):
            return mksegs(strs.merge_items(list(self.vc_get()) * max(0, n)))
        raise Unsupported('list repetition')

    @m
    def append(self, v):
        self.vc_append(v)

    @m
    def extend(self, it):
        for s in segs_of(it):
            self.vc_append_seg(s)

    @m
    def insert(self, i, v):
        i = norm(i)
        if i == 0:
            self.vc_set((Items([v]),) + self.vc_get())
            return
        vals = self.vc_items()
        if vals is None or isinstance(i, Sym):
            raise Unsupported('insert into a symbolic list')
        vals.insert(i, v)
        self.vc_set((Items(vals),))

    @m
    def pop(self, i=-1):
        vals = self.vc_items()
        i = norm(i)
        if vals is None:
            segs = strs.merge_items(list(self.vc_get()))
            if i == -1 and isinstance(segs[-1], Items) and segs[-1].vals:
                v = segs[-1].vals[-1]
                self.vc_set(tuple(segs[:-1]) + (Items(segs[-1].vals[:-1]),))
                return v
            if i == 0 and isinstance(segs[0], Items) and segs[0].vals:
                v = segs[0].vals[0]
                self.vc_set((Items(segs[0].vals[1:]),) + tuple(segs[1:]))
                return v
            if i in (0, -1) and len(segs) == 1 and simple(segs[0]) and segs[0].space.kind == 'seq':
                s = segs[0]
                ln = s.space.length()
                C.fact(ln >= 0)
                if not C.branch(ln > 0):
                    raise prog(IndexError('pop from empty list'))
                at = z3.IntVal(0) if i == 0 else ln - 1
                self.vc_set((CSeg(s.space, s.g, s.paths, s.g > at if i == 0 else s.g < at),))
                return elem(s, at)
            raise Unsupported('pop from a symbolic list')
        if isinstance(i, Sym):
            raise Unsupported('pop with a symbolic index')
        try:
            v = vals.pop(i)
        except IndexError as e:
            raise prog(e)
        self.vc_set((Items(vals),) if vals else ())
        return v

    @m
    def remove(self, x):
        vals = self.vc_items()
        if vals is None:
            raise Unsupported('remove from a symbolic list')
        for j, v in enumerate(vals):
            if truth(eq(v, x)):
                del vals[j]
                self.vc_set((Items(vals),) if vals else ())
                return
        raise prog(ValueError('list.remove(x): x not in list'))

    @m
    def index(self, x):
        vals = self.vc_items()
        if vals is None:
            raise Unsupported('index in a symbolic list')
        for j, v in enumerate(vals):
            if truth(eq(v, x)):
                return j
        raise prog(ValueError('not in list'))

    @m
    def count(self, x):
        vals = self.vc_items()
        if vals is None:
            raise Unsupported('count in a symbolic list')
        n = 0
        for v in vals:
            n = n + (1 if truth(eq(v, x)) else 0)
        return n

    @m
    def reverse(self):
        vals = self.vc_items()
        if vals is None:
            raise Unsupported('reverse of a symbolic list')
        self.vc_set((Items(vals[::-1]),))

    @m
    def sort(self, key=None, reverse=False):
        self.vc_set(b_sorted(self, key=key, reverse=reverse).vc_c)

    @m
    def copy(self):
        return mksegs(self.vc_get())

    @m
    def clear(self):
        self.vc_set(())
    PyList.__hash__ = object.__hash__


class sym_iter(object):
    def __init__(self, l):
        self.l = l

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic list')


def list_eq(a, b):
    if a is b:
        return True
    x, y = a.vc_items(), b.vc_items()
    if x is not None and y is not None:
        if len(x) != len(y):
            return False
        fs = []
        for u, v in zip(x, y):
            r = eq_t(u, v)
            if r is None:
                if not truth(eq(u, v)):
                    return False
            elif r is False:
                return False
            elif r is not True:
                fs.append(r)
        return True if not fs else B(z3.And(*fs))
    if x is not None and not x:
        return not nonempty(b.vc_get())
    if y is not None and not y:
        return not nonempty(a.vc_get())
    if prove_same_content('list', a.vc_get(), b.vc_get()):
        return True
    raise Unsupported('equality of symbolic lists')


def list_slice(l, i):
    lo, hi, stp = norm(i.start), norm(i.stop), norm(i.step)
    vals = l.vc_items()
    if vals is not None and not any(isinstance(x, Sym) for x in (lo, hi, stp)):
        return mklist(vals[lo:hi:stp])
    if stp is not None:
        raise Unsupported('slice step')
    segs = strs.merge_items(list(l.vc_get()))
    if lo is None and hi is None:
        return mksegs(segs)
    if lo is None:
        lo = 0
    if isinstance(lo, int) and lo >= 0 and hi is None:
        n = lo
        out = []
        for s in segs:
            if n == 0:
                out.append(s)
            elif isinstance(s, Items):
                k = min(n, len(s.vals))
                n -= k
                if s.vals[k:]:
                    out.append(Items(s.vals[k:]))
            elif simple(s):
                ln = s.space.length()
                if C.branch(ln > n):
                    e = s.g >= n
                    s2 = CSeg(s.space, s.g, s.paths, e)
                    out.append(s2)
                    n = 0
                else:
                    for m in range(n + 1):
                        if C.branch(ln == m):
                            n -= m
                            break
            else:
                raise Unsupported('slice of a filtered list')
        return mksegs(out)
    if lo == 0 and isinstance(hi, int) and hi < 0:
        n = -hi
        out = []
        for s in reversed(segs):
            if n == 0:
                out.insert(0, s)
            elif isinstance(s, Items):
                k = min(n, len(s.vals))
                n -= k
                if s.vals[:len(s.vals) - k]:
                    out.insert(0, Items(s.vals[:len(s.vals) - k]))
            elif simple(s):
                ln = s.space.length()
                if C.branch(ln > n):
                    out.insert(0, CSeg(s.space, s.g, s.paths, s.g < ln - n))
                    n = 0
                else:
                    for m in range(n + 1):
                        if C.branch(ln == m):
                            n -= m
                            break
            else:
                raise Unsupported('slice of a filtered list')
        return mksegs(out)
    raise Unsupported('slice of a symbolic list')


def dict_init(self, it=None, **kw):
    if it is not None:
        dict_update(self, it)
    for k, v in kw.items():
        self.vc_put(k, v)


PyDict.__init__ = dict_init


def dict_update(self, it):
    it = norm(it)
    if isinstance(it, PyDict):
        c = it.vc_conc()
        if c is not None:
            for k, v in c.items():
                self.vc_put(k, v)
        elif not any(isinstance(l, DDel) for l in it.vc_get()):
            self.vc_set(self.vc_c + it.vc_get())
        else:
            raise Unsupported('update from a mapping with deletions')
        return
    if isinstance(it, Obj) and hasattr(type(it), 'keys') or isinstance(it, Obj) and hasattr(it, 'keys'):
        def body(k):
            self.vc_put(conck(norm_keep(k)), I(it, k))
        run_loop(segs_of(it.keys()), body)
        return

    def body(p):
        k, v = UNPACK(p, 2)
        self.vc_put(conck(norm_keep(k)), v)
    run_loop(segs_of(it), body)


def _install_dict():
    m = _m(PyDict)

    @m
    def __iter__(self):
        c = self.vc_conc()
        if c is None:
            return iter(sym_iter(self))
        return iter(list(c))

    @m
    def __len__(self):
        n = b_len(self)
        if isinstance(n, Sym):
            raise Unsupported('native len of a symbolic dict')
        return n

    @m
    def __bool__(self):
        return dict_nonempty(self)

    @m
    def __contains__(self, k):
        return dict_contains(self, k)

    @m
    def __getitem__(self, k):
        r = dict_get(self, k)
        if r is None:
            mi = getattr(type(self), '__missing__', None)
            if mi is not None:
                return mi(self, k)
            raise prog(KeyError(k if not isinstance(k, (Sym, Lazy)) else 'symbolic'))
        return r[1]

    @m
    def __setitem__(self, k, v):
        k = conck(norm_keep(k))
        if isinstance(k, (PyList, PyDict)):
            raise prog(TypeError('unhashable type'))
        self.vc_put(k, v)

    @m
    def __delitem__(self, k):
        if dict_get(self, k) is None:
            raise prog(KeyError(k if not isinstance(k, (Sym, Lazy)) else 'symbolic'))
        self.vc_del(conck(norm_keep(k)))

    @m
    def get(self, k, d=None):
        r = dict_get(self, k)
        return d if r is None else r[1]

    @m
    def setdefault(self, k, d=None):
        r = dict_get(self, k)
        if r is None:
            self.vc_put(conck(norm_keep(k)), d)
            return d
        return r[1]

    @m
    def pop(self, k, *d):
        r = dict_get(self, k)
        if r is None:
            if d:
                return d[0]
            raise prog(KeyError(k if not isinstance(k, (Sym, Lazy)) else 'symbolic'))
        self.vc_del(conck(norm_keep(k)))
        return r[1]

    @m
    def update(self, it=None, **kw):
        if it is not None:
            dict_update(self, it)
        for k, v in kw.items():
            self.vc_put(k, v)

    @m
    def keys(self):
        return mkview(self, 'k')

    @m
    def values(self):
        return mkview(self, 'v')

    @m
    def items(self):
        return mkview(self, 'i')

    @m
    def copy(self):
        return mklayers(self.vc_get())

    @m
    def clear(self):
        self.vc_set(())

    @m
    def __eq__(self, o):
        o = norm_keep(o)
        if isinstance(o, Sym):
            o = norm(o)
            if isinstance(o, Sym) and o.k == 'opq':
                return B(box(self) == box(o))
        if not isinstance(o, PyDict) or isinstance(o, PySet):
            return False
        return dict_eq(self, o)

    @m
    def __ne__(self, o):
        return not_(self.__eq__(o))
    PyDict.__hash__ = object.__hash__

    def fromkeys(cls, it, v=None):
        d = mkdict({})

        def body(k):
            d.vc_put(conck(norm_keep(k)), v)
        run_loop(segs_of(it), body)
        return d
    PyDict.fromkeys = classmethod(fromkeys)


def dict_nonempty(d):
    c = d.vc_conc()
    if c is not None:
        return bool(c)
    ls = d.vc_get()
    if not any(isinstance(l, DDel) for l in ls):
        if any(isinstance(l, DItem) for l in ls):
            return True
        return nonempty([conv_entries(l, 'k') for l in ls])
    return nonempty(entries(d, 'k'))


def dict_eq(a, b):
    if a is b:
        return True
    x, y = a.vc_conc(), b.vc_conc()
    if x is not None and y is not None:
        if set(x) != set(y):
            return False
        fs = []
        for k in x:
            r = eq_t(x[k], y[k])
            if r is None:
                if not truth(eq(x[k], y[k])):
                    return False
            elif r is False:
                return False
            elif r is not True:
                fs.append(r)
        return True if not fs else B(z3.And(*fs))
    if x is not None and not x:
        return not dict_nonempty(b)
    if y is not None and not y:
        return not dict_nonempty(a)
    if prove_same_content('dict', a.vc_get(), b.vc_get()):
        return True
    raise Unsupported('equality of symbolic dicts')


def to_set(it, cls=PySet):
    it = norm(it)
    if isinstance(it, PySet):
        return mklayers(it.vc_get(), cls)
    if isinstance(it, PyDict):
        segs = entries(it, 'k', dups=True)
    elif isinstance(it, DView):
        segs = entries(it.__dict__['~d'], it.__dict__['~v'], dups=True)
    else:
        segs = segs_of(it)
    out = mklayers((), cls)
    for s in segs:
        if isinstance(s, Items):
            for v in s.vals:
                v = norm_keep(v)
                if isinstance(v, PyColl) and not isinstance(v, PyFrozen):
                    raise prog(TypeError('unhashable type'))
                if isinstance(v, Sym) and v.k == 'val':
                    v = conck(v)
                out.vc_put(conck(v), None)
        elif all(isinstance(o, Items) and len(o.vals) == 1 for p in s.paths for o in p.outs):
            out.vc_set(out.vc_c + (CSeg(s.space, s.g, [CPath(p.conds, p.skolems, [(o.vals[0], None) for o in p.outs], p.owned) for p in s.paths], s.extra),))
        else:
            def body(v):
                out.vc_put(v, None)
            run_loop((s,), body)
    return out


def set_entries(s):
    """raw entries of a set (duplicates allowed)"""
    if isinstance(s, PySet):
        return entries(s, 'k', dups=True)
    return segs_of(s)


def _install_set():
    m = _m(PySet)

    def __init__(self, it=None):
        if it is not None:
            self.vc_set(to_set(it).vc_c)
    PySet.__init__ = __init__

    def as_set(o):
        o = norm(o)
        return o if isinstance(o, PySet) else to_set(o)

    @m
    def add(self, v):
        self.vc_put(conck(norm_keep(v)), None)

    @m
    def update(self, *its):
        for it in its:
            self.vc_set(self.vc_get() + to_set(it).vc_get())

    @m
    def discard(self, v):
        self.vc_del(conck(norm_keep(v)))

    @m
    def remove(self, v):
        if not truth(self.__contains__(v)):
            raise prog(KeyError('set.remove'))
        self.vc_del(conck(norm_keep(v)))

    @m
    def difference(self, *os):
        cur = self
        for o in os:
            o = as_set(o)
            out = mklayers((), PySet)

            def body(v):
                if not truth(dict_contains(o, v)):
                    out.vc_put(v, None)
            run_loop(set_entries(cur), body)
            cur = out
        return cur

    @m
    def intersection(self, *os):
        cur = self
        for o in os:
            o = as_set(o)
            out = mklayers((), PySet)
            if cur.vc_conc() is None and o.vc_conc() is not None:
                cur, o = o, cur

            def body(v):
                if truth(dict_contains(o, v)):
                    out.vc_put(v, None)
            run_loop(set_entries(cur), body)
            cur = out
        return cur

    @m
    def union(self, *os):
        out = mklayers(self.vc_get(), PySet)
        for o in os:
            out.vc_set(out.vc_get() + as_set(o).vc_get())
        return out

    def subset(a, b):
        r = run_loop(set_entries(a), lambda v: None if truth(dict_contains(b, v)) else Exit('break'))
        return r is None

    @m
    def issubset(self, o):
        return subset(self, as_set(o))

    @m
    def issuperset(self, o):
        return subset(as_set(o), self)

    @m
    def isdisjoint(self, o):
        return not b_truth(self.intersection(o))

    @m
    def symmetric_difference(self, o):
        o = as_set(o)
        return self.difference(o).union(o.difference(self))

    @m
    def copy(self):
        return mklayers(self.vc_get(), PySet)

    @m
    def __bool__(self):
        c = self.vc_conc()
        if c is not None:
            return bool(c)
        return nonempty(set_entries(self))

    @m
    def __eq__(self, o):
        o = norm(o)
        if isinstance(o, DView):
            o = to_set(o)
        if not isinstance(o, PySet):
            return False
        return subset(self, o) and subset(o, self)

    def bop(nm):
        def f(self, o):
            o = norm(o)
            if not isinstance(o, (PySet, DView)):
                raise prog(TypeError('unsupported operand type(s) for set'))
            return getattr(self, nm)(o)
        return f
    PySet.__sub__ = bop('difference')
    PySet.__and__ = bop('intersection')
    PySet.__or__ = bop('union')
    PySet.__xor__ = bop('symmetric_difference')
    PySet.__le__ = bop('issubset')
    PySet.__ge__ = bop('issuperset')
    PySet.__hash__ = object.__hash__

    @m
    def pop(self):
        c = self.vc_conc()
        if c is None:
            raise Unsupported('pop from a symbolic set')
        if not c:
            raise prog(KeyError('pop from an empty set'))
        k = next(iter(c))
        self.vc_del(k)
        return k

    def __hash__(self):
        c = self.vc_conc()
        if c is None:
            raise Unsupported('hash of a symbolic frozenset')
        return hash(frozenset(c))
    PyFrozen.__hash__ = __hash__

    def feq(self, o):
        if isinstance(o, PyFrozen):
            x, y = self.vc_conc(), o.vc_conc()
            if x is not None and y is not None:
                return set(x) == set(y)
        return PySet.__eq__(self, o)
    PyFrozen.__eq__ = feq


_install_list()
_install_dict()
_install_set()


# ---------------------------------------------------------------------------
# builtins

def b_truth(v):
    return truth(v)


@model(bool)
def b_bool(v=False):
    t = truth_t(v)
    if t is None:
        return truth(v)
    return t if isinstance(t, bool) else B(t)


@model(len)
def b_len(v):
    v = norm(v)
    if isinstance(v, Sym):
        if v.k == 'str':
            f = strs.fixed(z3.simplify(v.t)) if v.k == 'str' else None
            if f is not None:
                return len(f)
            return mk('int', z3.Length(v.t))
        if v.k == 'bytes':
            return mk('int', z3.Length(v.t))
        if v.k == 'opq':
            raise Unsupported('len of an opaque value')
        raise prog(TypeError("object of type '%s' has no len()" % v.k))
    if isinstance(v, PyList):
        m = type(v).__len__
        return m(v) if m is not PyList.__len__ else list_len(v.vc_get())
    if isinstance(v, PyDict):
        m = type(v).__len__
        if m is not PyDict.__len__:
            return m(v)
        c = v.vc_conc()
        if c is not None:
            return len(c)
        if not dict_nonempty(v):
            return 0
        try:
            r = list_len(entries(v, 'k'))
        except Unsupported:
            n = C.fresh('int', 'card')
            C.assume(n >= 1)
            return Sym('int', n)
        return r
    if isinstance(v, DView):
        return b_len(v.__dict__['~d'])
    if isinstance(v, Obj):
        f = getattr(type(v), '__len__', None)
        if f is None:
            raise prog(TypeError("object has no len()"))
        return f(v)
    try:
        return len(v)
    except TypeError as e:
        raise prog(e)


def classes_of(c):
    c = norm(c)
    if isinstance(c, tuple):
        out = []
        for x in c:
            out.extend(classes_of(x))
        return out
    if isinstance(c, PyList):
        raise prog(TypeError('isinstance() arg 2 must be a type'))
    return [c]


SUB = {PyList: list, PyDict: dict, PySet: set, PyFrozen: frozenset}


@model(isinstance)
def b_isinstance(v, c):
    cs = classes_of(c)
    while isinstance(v, Lazy):
        v = force(v)
    if isinstance(v, Sym) and v.k == 'val':
        # decide without forking on unrelated kinds
        u = unbox_sym(v)
        if isinstance(u, Sym) and u.k == 'val':
            known = None
            for fr in reversed(C.frames):
                if u.t.get_id() in fr.kinds:
                    known = fr.kinds[u.t.get_id()][0]
                    break
            if known is None:
                fs = []
                for k, t in (('bool', bool), ('int', int), ('real', float), ('str', str)):
                    if any(isinstance(x, type) and issubclass(t, x) for x in cs):
                        fs.append(is_kind(u.t, k))
                if any(x is object for x in cs):
                    return True
                if any(x is type(None) for x in cs):
                    fs.append(is_kind(u.t, 'none'))
                # an opaque value is an instance of none of the classes the program names
                C.trusted.add('an opaque value is not an instance of any class the program tests for')
                return B(z3.Or(*fs)) if fs else False
            v = norm(v)
        else:
            v = u
    if isinstance(v, Sym):
        if v.k == 'opq':
            return any(x is object for x in cs)
        t = {'bool': bool, 'int': int, 'real': float, 'str': str, 'bytes': bytes}[v.k]
        return any(isinstance(x, type) and issubclass(t, x) for x in cs)
    for x in cs:
        if x in BASEMAP:
            if x is object:
                return True
            if x is set:
                if isinstance(v, PySet) and not isinstance(v, PyFrozen):
                    return True
            elif x is dict:
                if isinstance(v, PyDict) and not isinstance(v, PySet):
                    return True
            elif isinstance(v, BASEMAP[x]):
                return True
            continue
        h = ISHOOK.get(x)
        if h is not None:
            if h(v):
                return True
            continue
        try:
            if isinstance(v, x):
                return True
        except TypeError as e:
            raise prog(e)
    return False


ISHOOK = {}


@model(issubclass)
def b_issubclass(a, c):
    a = norm(a)
    for x in classes_of(c):
        if a is x:
            return True
        if isinstance(a, type) and isinstance(x, type):
            b = BASEMAP.get(x, x)
            if x is object:
                return True
            aa = BASEMAP.get(a, a)
            if issubclass(aa, b) and not (x is dict and issubclass(aa, PySet)):
                return True
            if issubclass(a, x):
                return True
    if not isinstance(a, type):
        raise prog(TypeError('issubclass() arg 1 must be a class'))
    return False


@model(type)
def b_type(v, *a):
    if a:
        return type(v, *a)
    return type_of(v)


@model(str)
def b_str(v='', *a):
    if a:
        v = norm(v)
        return strs.by_decode(v, a[0])
    return strs.to_str(v)


@model(repr)
def b_repr(v):
    return strs.to_repr(v)


def _const(p):
    return isinstance(p, (int, float, str)) and not isinstance(p, Sym)


@model(int)
def b_int(v=0, base=None):
    v = norm(v)
    if base is not None:
        n = native_of(v)
        if n is None:
            raise Unsupported('int with a base')
        try:
            return int(n[0], base)
        except Exception as e:
            raise prog(e)
    if isinstance(v, Sym):
        if v.k == 'bool':
            return mk('int', num(v)[0])
        if v.k == 'int':
            return v
        if v.k == 'real':
            t = v.t
            return mk('int', z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        if v.k == 'str':
            ok = z3.Function('py.isint', z3.StringSort(), z3.BoolSort())
            f = z3.Function('py.int', z3.StringSort(), z3.IntSort())
            t = v.t
            if strs.is_int_str(t):
                return mk('int', t.arg(0))
            d = strs.fixed_int(t)
            if d is not None:
                return mk('int', d)
            if not C.branch(ok(t)):
                raise prog(ValueError('invalid literal for int()'))
            return mk('int', f(t))
        raise Unsupported('int() of an opaque value')
    if isinstance(v, Obj):
        f = getattr(type(v), '__int__', None)
        if f is None:
            raise prog(TypeError('int() argument must be a string or a number'))
        return f(v)
    try:
        return int(v)
    except Exception as e:
        raise prog(e)


@model(float)
def b_float(v=0.0):
    v = norm(v)
    if isinstance(v, Sym):
        if v.k in ('bool', 'int'):
            return mk('real', z3.ToReal(num(v)[0]))
        if v.k == 'real':
            return v
        if v.k == 'str':
            ok = z3.Function('py.isfloat', z3.StringSort(), z3.BoolSort())
            f = z3.Function('py.float', z3.StringSort(), z3.RealSort())
            if not C.branch(ok(v.t)):
                raise prog(ValueError('could not convert string to float'))
            return mk('real', f(v.t))
        raise Unsupported('float() of an opaque value')
    if isinstance(v, Obj):
        raise prog(TypeError('float() argument must be a string or a number'))
    try:
        return float(v)
    except Exception as e:
        raise prog(e)


@model(list)
def b_list(it=None):
    if it is None:
        return mklist([])
    it = norm(it)
    if isinstance(it, PySet) and it.vc_conc() is None and type(it).__iter__ is PyDict.__iter__:
        ls = it.vc_get()
        if not any(isinstance(l, DDel) for l in ls) and any(isinstance(l, CSeg) and not injective(l) for l in ls):
            return mksegs([coll.SetSeg([conv_entries(l, 'k') if isinstance(l, CSeg) else Items([l.k]) for l in ls])])
    return mksegs(strs.merge_items(segs_of(it)))


@model(tuple)
def b_tuple(it=()):
    if isinstance(it, tuple):
        return it
    return tuple(native_list(it))


@model(dict)
def b_dict(it=None, **kw):
    d = mkdict({})
    if it is not None:
        dict_update(d, it)
    for k, v in kw.items():
        d.vc_put(k, v)
    return d


@model(set)
def b_set(it=None):
    return mklayers((), PySet) if it is None else to_set(it)


@model(frozenset)
def b_frozenset(it=None):
    return mklayers((), PyFrozen) if it is None else to_set(it, PyFrozen)


@model(object)
def b_object():
    return PObj()


@model(sorted)
def b_sorted(it, key=None, reverse=False):
    segs = segs_of(it)
    vals = []
    if len(segs) == 1 and isinstance(segs[0], CSeg) and key is None and coll.elem_kind([segs]) in ('str', 'int', 'real'):
        s = segs[0]
        return mksegs((CSeg(s.space.reordered(), s.g, s.paths, s.extra),))
    for s in segs:
        if not isinstance(s, Items):
            raise Unsupported('sorting a symbolic collection')
        vals.extend(s.vals)
    ks = [K(key, v) if key is not None else v for v in vals]
    nk = native_of(tuple(ks))
    if nk is not None:
        try:
            idx = sorted(range(len(vals)), key=lambda i: nk[0][i], reverse=bool(reverse))
        except TypeError as e:
            raise prog(e)
        return mklist([vals[i] for i in idx])
    # insertion sort with symbolic comparisons
    rev = truth(reverse)
    out = []
    for v, k in zip(vals, ks):
        j = len(out)
        while j > 0 and truth(compare('<', out[j - 1][1], k) if rev else compare('<', k, out[j - 1][1])):
            j -= 1
        out.insert(j, (v, k))
    return mklist([v for v, k in out])


@model(range)
def b_range(*a):
    a = [norm(x) for x in a]
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            lo, hi = 0, a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            raise Unsupported('range with a step')
        n = num(arith('-', hi, lo))[0]
        nm = 'range'
        sp = Space('seq', nm, (n,))
        C.fact(sp.length() == z3.If(n > 0, n, z3.IntVal(0)))
        g = z3.Int('range$g')
        return mksegs((CSeg(sp, g, [CPath((), (), (Items([mk('int', g + num(lo)[0])]),))]),))
    try:
        return range(*a)
    except TypeError as e:
        raise prog(e)


@model(enumerate)
def b_enumerate(it, start=0):
    segs = segs_of(it)
    out = []
    n = start
    for s in segs:
        if isinstance(s, Items):
            vals = []
            for v in s.vals:
                vals.append((n, v))
                n = arith('+', n, 1)
            out.append(Items(vals))
        elif simple(s):
            off = num(n)[0]
            out.append(CSeg(s.space, s.g, [CPath(p.conds, p.skolems, [Items([(mk('int', s.g + off), p.outs[0].vals[0])])], p.owned) for p in s.paths], s.extra))
            n = arith('+', n, mk('int', s.space.length()))
        else:
            raise Unsupported('enumerate of a filtered collection')
    return mkiter(out)


@model(zip)
def b_zip(*its):
    ss = [strs.merge_items(segs_of(i)) for i in its]
    if all(all(isinstance(s, Items) for s in segs) for segs in ss):
        cols = [[v for s in segs for v in s.vals] for segs in ss]
        return mkiter([Items([t for t in zip(*cols)])])
    if any(all(isinstance(s, Items) and not s.vals for s in segs) for segs in ss):
        return mkiter([])
    # aligned simple comprehensions over spaces of equal length
    if all(len(segs) == 1 and isinstance(segs[0], CSeg) and simple(segs[0]) for segs in ss):
        base = ss[0][0]
        for segs in ss[1:]:
            if not valid(segs[0].space.length() == base.space.length()):
                raise Unsupported('zip of collections of different length')
        g = base.g

        cps = []
        for ps in itertools.product(*[segs[0].paths for segs in ss]):
            cs, vs, sks = [], [], []
            s0 = C.serial
            for segs, p in zip(ss, ps):
                back = []
                c, o = inst_path(segs[0], p, g, None, back)
                sks.extend(a for a, b in back[1:])
                cs.extend(c)
                vs.append(o[0].vals[0])
            cps.append(CPath(cs, sks, [Items([tuple(vs)])], (s0, C.serial)))
        return mkiter([CSeg(base.space, g, cps)])
    raise Unsupported('zip of symbolic collections')


@model(map)
def b_map(f, *its):
    if len(its) > 1:
        src = segs_of(b_zip(*its))
        call = lambda x: K(f, *x)
    else:
        src = segs_of(its[0])
        call = lambda x: K(f, x)
    out = mklist([])

    def body(x):
        out.vc_append(call(x))
    run_loop(src, body)
    return mkiter(out.vc_c)


@model(filter)
def b_filter(f, it):
    out = mklist([])

    def body(x):
        if truth(x if f is None else K(f, x)):
            out.vc_append(x)
    run_loop(segs_of(it), body)
    return mkiter(out.vc_c)


@model(any)
def b_any(it):
    return run_loop(segs_of(it), lambda v: Exit('break') if truth(v) else None) is not None


@model(all)
def b_all(it):
    return run_loop(segs_of(it), lambda v: None if truth(v) else Exit('break')) is None


@model(sum)
def b_sum(it, start=0):
    t = start
    for v in native_list(it):
        t = BIN('+', t, v)
    return t


def _mm(op):
    def f(*a, **k):
        key = k.get('key')
        vals = native_list(a[0]) if len(a) == 1 else list(a)
        if not vals:
            if 'default' in k:
                return k['default']
            raise prog(ValueError('arg is an empty sequence'))
        best = vals[0]
        bk = K(key, best) if key else best
        for v in vals[1:]:
            vk = K(key, v) if key else v
            if truth(compare(op, vk, bk)):
                best, bk = v, vk
        return best
    return f


b_min = model(min)(_mm('<'))
b_max = model(max)(_mm('>'))


@model(abs)
def b_abs(v):
    return OPS.op_abs(v)


@model(hasattr)
def b_hasattr(o, name):
    name = norm(name)
    if isinstance(name, Sym):
        raise Unsupported('hasattr with a symbolic name')
    try:
        G(o, name)
        return True
    except AttributeError as e:
        chk(e)
        return False


@model(getattr)
def b_getattr(o, name, *d):
    name = norm(name)
    if isinstance(name, Sym):
        o = norm(o)
        h = getattr(o, 'vc_symattr', None) if isinstance(o, Obj) else None
        raise Unsupported('getattr with a symbolic name')
    if not isinstance(name, str):
        raise prog(TypeError('attribute name must be string'))
    if d:
        try:
            return G(o, name)
        except AttributeError as e:
            chk(e)
            return d[0]
    return G(o, name)


@model(setattr)
def b_setattr(o, name, v):
    name = norm(name)
    o = norm(o)
    if isinstance(name, Sym):
        raise Unsupported('setattr with a symbolic name')
    setattr(o, name, v)


@model(delattr)
def b_delattr(o, name):
    delattr(norm(o), name)


@model(callable)
def b_callable(v):
    v = norm(v)
    if isinstance(v, Sym):
        return False
    return callable(v)


@model(iter)
def b_iter(v):
    v = norm(v)
    if isinstance(v, PyIter):
        return v
    if isinstance(v, Obj) and not isinstance(v, (PyColl, DView)) and hasattr(type(v), '__iter__'):
        return type(v).__iter__(v)
    return mkiter(segs_of(v))


@model(next)
def b_next(it, *d):
    it = norm(it)
    if isinstance(it, PyIter):
        segs = strs.merge_items(list(it.__dict__['~c']))
        C.note_read(it, '~c')
        while segs and isinstance(segs[0], Items) and not segs[0].vals:
            segs.pop(0)
        if not segs:
            if d:
                return d[0]
            raise prog(StopIteration())
        if isinstance(segs[0], Items):
            raw_setattr(it, '~c', tuple([Items(segs[0].vals[1:])] + segs[1:]))
            return segs[0].vals[0]
        # first element of a symbolic iterator; the rest is not tracked
        raw_setattr(it, '~c', (BadSeg,))
        r = run_loop(segs, lambda v: Exit('break', v))
        if r is None:
            raw_setattr(it, '~c', ())
            if d:
                return d[0]
            raise prog(StopIteration())
        return r.val
    if isinstance(it, Obj) and hasattr(type(it), '__next__'):
        try:
            return type(it).__next__(it)
        except StopIteration as e:
            if d:
                return d[0]
            raise
    raise prog(TypeError('object is not an iterator'))


class _BadSeg(object):
    pass


BadSeg = _BadSeg()


@model(reversed)
def b_reversed(v):
    return mkiter([Items(native_list(v)[::-1])])


@model(id)
def b_id(v):
    v = norm(v)
    if isinstance(v, Sym):
        raise Unsupported('id of a symbolic value')
    return id(v)


@model(hash)
def b_hash(v):
    v = norm(v)
    if isinstance(v, (PyList, PyDict)) and not isinstance(v, PyFrozen):
        raise prog(TypeError('unhashable type'))
    raise Unsupported('hash()')


@model(print)
def b_print(*a, **k):
    return None


@model(vars)
def b_vars(*a):
    raise Unsupported('vars()')


@model(round)
def b_round(v, n=None):
    v = norm(v)
    if isinstance(v, Sym):
        raise Unsupported('round of a symbolic value')
    return round(v) if n is None else round(v, n)


@model(open)
def b_open(*a, **k):
    raise Unsupported('file access')


@model(bytes)
def b_bytes(v=b'', *a):
    v = norm(v)
    if isinstance(v, Sym) and v.k == 'bytes':
        return v
    if a and strs.isprogstr(v):
        return strs.s_encode(v, a[0])
    n = native_of(v)
    if n is None:
        raise Unsupported('bytes()')
    try:
        return bytes(n[0], *a)
    except Exception as e:
        raise prog(e)


@model(chr)
def b_chr(v):
    v = norm(v)
    if isinstance(v, Sym):
        raise Unsupported('chr of a symbolic value')
    return chr(v)


@model(divmod)
def b_divmod(a, b):
    return (BIN('//', a, b), BIN('%', a, b))


@model(exec, eval, compile, input, globals)
def b_no(*a, **k):
    raise Unsupported('dynamic code')


for _f in (object.__new__, object.__init__, type.__new__, object.__setattr__, object.__getattribute__):
    pass


def _obj_new(cls, *a, **k):
    return Obj.__new__(cls)


model(object.__new__)(_obj_new)
model(object.__init__)(lambda self, *a, **k: None)
