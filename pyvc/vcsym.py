"""The `vc` module seen by contracts in proof mode: symbolic inputs, assumptions,
obligations."""
import fractions
import time
import z3
from . import core, rtl, ops, strs, coll, regex
from .core import (C, Sym, Lazy, Obj, Val, OpqS, BytesS, SORTS, Unsupported, Infeasible, PathStop, EngineError, EngineSignal, prog, chk,
                   box, norm, force, lift, concrete, zstr, pystr, memo_lists, memo_add, valid, is_kind, unbox_sym)
from .coll import (PyColl, PyList, PyDict, PySet, CSeg, CPath, Items, DItem, Space, mklist, mkdict, mklayers, mksegs, memo_make, raw_setattr,
                   MISSING)
from .rtl import K, PObj, native_list
from .ops import truth, truth_t, B
from .same import same as _same, NotAligned

REG = []        # registered harnesses


class Harness(object):
    def __init__(self, hid, prop, fn, inputs, opts):
        self.id = hid
        self.prop = prop
        self.fn = fn
        self.inputs = inputs
        self.opts = opts


def _pairs(v):
    """program dict -> python dict"""
    if isinstance(v, PyDict):
        return v.vc_conc()
    return v


def harness(hid, prop, **opts):
    inputs = _pairs(opts.pop('inputs', {}))

    def deco(fn):
        REG.append(Harness(hid, prop, fn, inputs, {k: rtl.native_of(v)[0] if isinstance(v, Obj) else v for k, v in opts.items()}))
        return fn
    return deco


# ---------------------------------------------------------------------------
# shapes

def fun(path, args, sort):
    if not args:
        return z3.Const(path, sort)
    return z3.Function(path, *([a.sort() for a in args] + [sort]))(*args)


class Maker(object):
    """reproducible constructor of an input component, indexed by loop elements"""
    def __init__(self, shape, path):
        self.shape = shape
        self.vc_name = path

    def __call__(self, *args):
        return self.shape.mk(self.vc_name, args)


_makers = {}


def maker(shape, path):
    k = (id(shape), path)
    if k not in _makers:
        _makers[k] = (Maker(shape, path), shape)
    return _makers[k][0]


def make(shape, path, args=()):
    """value of the shape; heap values are created once per index"""
    return memo_make(maker(shape, path), tuple(args))


class Shape(object):
    heap = False

    def mk(self, path, args):
        raise NotImplementedError

    def conc(self, m, path, args):
        """value tree of this component in a model"""
        raise NotImplementedError

    def sizes(self, path, args, acc):
        pass


def _shape(s):
    if isinstance(s, Shape):
        return s
    return OneOf(s)


class Int(Shape):
    def __init__(self, lo=None, hi=None, **k):
        self.lo, self.hi = lo, hi

    def mk(self, path, args):
        t = fun(path, args, z3.IntSort())
        if self.lo is not None:
            C.fact(t >= self.lo)
        if self.hi is not None:
            C.fact(t <= self.hi)
        return Sym('int', t)

    def conc(self, m, path, args):
        v = m.eval(fun(path, args, z3.IntSort()), model_completion=True).as_long()
        if self.lo is not None:
            v = max(v, self.lo)
        if self.hi is not None:
            v = min(v, self.hi)
        return v


def real_tree(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return {'r': [v.numerator_as_long(), v.denominator_as_long()]}


class Real(Shape):
    def __init__(self, *a, **k):
        pass

    def mk(self, path, args):
        return Sym('real', fun(path, args, z3.RealSort()))

    def conc(self, m, path, args):
        return real_tree(m.eval(fun(path, args, z3.RealSort()), model_completion=True))


class Bool(Shape):
    def mk(self, path, args):
        return Sym('bool', fun(path, args, z3.BoolSort()))

    def conc(self, m, path, args):
        return z3.is_true(m.eval(fun(path, args, z3.BoolSort()), model_completion=True))


class Str(Shape):
    def __init__(self, no='', nonempty=False, only=None, **k):
        """no: characters that do not occur; only: those that may"""
        self.no = no
        self.nonempty = nonempty
        self.only = only

    def mk(self, path, args):
        t = fun(path, args, z3.StringSort())
        for ch in self.no if len(self.no) < 12 else ():
            C.fact(z3.Not(z3.Contains(t, zstr(ch))))
        if self.no:
            memo_add('free', (t, frozenset(self.no)))
            if len(self.no) >= 12:
                C.fact(z3.InRe(t, z3.Star(regex.without(self.no))))
        if self.only is not None:
            memo_add('free', (t, strs.NotIn(self.only)))
            C.fact(z3.InRe(t, z3.Star(regex.of(self.only))))
        if self.nonempty:
            C.fact(t != z3.StringVal(''))
        return Sym('str', t)

    def conc(self, m, path, args):
        s = pystr(m.eval(fun(path, args, z3.StringSort()), model_completion=True))
        for ch in self.no:
            s = s.replace(ch, '')
        if self.only is not None:
            s = ''.join(ch for ch in s if ch in self.only)
        if self.nonempty and not s:
            s = 'a' if self.only is None else self.only[0]
        return s

    def sizes(self, path, args, acc):
        acc.append(z3.Length(fun(path, args, z3.StringSort())) <= 6)


class Bytes(Shape):
    def mk(self, path, args):
        return Sym('bytes', fun(path, args, BytesS))

    def conc(self, m, path, args):
        return {'b': 'ab'}


class Scalar(Shape):
    """one of the scalar kinds: subset of none bool int real str opq"""
    def __init__(self, *kinds, **k):
        self.kinds = kinds or ('none', 'bool', 'int', 'real', 'str')

    def mk(self, path, args):
        t = fun(path, args, Val)
        C.fact(z3.Or(*[is_kind(t, k) for k in self.kinds]))
        return Sym('val', t)

    def conc(self, m, path, args):
        v = m.eval(fun(path, args, Val), model_completion=True)
        n = v.decl().name()
        if n == 'none':
            return None
        if n == 'vo':
            return {'opq': str(v.arg(0))}
        if n == 'vb':
            return z3.is_true(v.arg(0))
        if n == 'vi':
            return v.arg(0).as_long()
        if n == 'vr':
            return real_tree(v.arg(0))
        return pystr(v.arg(0))


def Any(**k):
    return Scalar('none', 'bool', 'int', 'real', 'str', 'opq')


class OneOf(Shape):
    """one of the given constants"""
    def __init__(self, *vals):
        self.vals = list(vals)

    def tag(self, path, args):
        return fun(path + '#', args, z3.IntSort())

    def mk(self, path, args):
        if len(self.vals) == 1:
            return self.vals[0]
        t = self.tag(path, args)
        n = len(self.vals)
        if args and all(isinstance(v, str) for v in self.vals):
            s = fun(path, args, z3.StringSort())
            C.fact(z3.Or(*[s == zstr(v) for v in self.vals]))
            return Sym('str', s)

        def thunk():
            i = C._decide(lambda i: t == i if i < n - 1 else z3.Or(t < 0, t >= n - 1), n)
            return self.vals[i]
        return Lazy(thunk, (maker(self, path), tuple(args)) if args else None)

    def conc(self, m, path, args):
        if len(self.vals) == 1:
            return {'one': 0}
        if args and all(isinstance(v, str) for v in self.vals):
            s = pystr(m.eval(fun(path, args, z3.StringSort()), model_completion=True))
            return {'one': self.vals.index(s) if s in self.vals else 0}
        i = m.eval(self.tag(path, args), model_completion=True).as_long()
        return {'one': i if 0 <= i < len(self.vals) else len(self.vals) - 1}


class Union(Shape):
    def __init__(self, *shapes):
        self.shapes = [_shape(s) for s in shapes]

    def mk(self, path, args):
        t = fun(path + '#', args, z3.IntSort())
        n = len(self.shapes)

        def thunk():
            i = C._decide(lambda i: t == i if i < n - 1 else z3.Or(t < 0, t >= n - 1), n)
            v = make(self.shapes[i], '%s.%d' % (path, i), args)
            while isinstance(v, Lazy):
                v = force(v)
            return v
        return Lazy(thunk, (maker(self, path), tuple(args)) if args else None)

    def conc(self, m, path, args):
        i = m.eval(fun(path + '#', args, z3.IntSort()), model_completion=True).as_long()
        if not 0 <= i < len(self.shapes):
            i = len(self.shapes) - 1
        return {'u': i, 'v': self.shapes[i].conc(m, '%s.%d' % (path, i), args)}

    def sizes(self, path, args, acc):
        for i, s in enumerate(self.shapes):
            s.sizes('%s.%d' % (path, i), args, acc)


def Opt(s):
    return Union(OneOf(None), s)


def Num(*a, **k):
    return Scalar('int', 'real')


class ListOf(Shape):
    heap = True

    def __init__(self, elem, min=0, max=None, **k):
        self.elem = _shape(elem)
        self.min, self.max = min, max

    def mk(self, path, args):
        sp = Space('seq', path, args)
        C.fact(sp.length() >= self.min)
        if self.max is not None:
            C.fact(sp.length() <= self.max)
        if self.min == self.max == 0:
            return mklist([])
        g = z3.Int(path + '$g')
        el = elem_value(self.elem, path + '.el', tuple(args) + (g,))
        return mksegs((CSeg(sp, g, [CPath((), (), (Items((el,)),))]),))

    def conc(self, m, path, args):
        n = m.eval(Space('seq', path, args).length(), model_completion=True).as_long()
        n = max(min(n, 8), 0)
        return [self.elem.conc(m, path + '.el', tuple(args) + (z3.IntVal(i),)) for i in range(n)]

    def sizes(self, path, args, acc):
        acc.append(Space('seq', path, args).length() <= 3)


def elem_value(shape, path, args):
    """placeholder for the generic element, replaced when the index is known"""
    mk = maker(shape, path)
    return Lazy(lambda: memo_make(mk, args), (mk, args))


class DictOf(Shape):
    heap = True

    def __init__(self, elem, keys=None, max=None, no='', **k):
        self.elem = _shape(elem)
        self.no = no
        self.max = max

    def mk(self, path, args):
        sp = Space('map', path, args)
        g = z3.String(path + '$k')
        el = elem_value(self.elem, path + '.el', tuple(args) + (g,))
        conds = tuple(z3.Not(z3.Contains(g, zstr(ch))) for ch in self.no)
        q = z3.String(path + '$q')
        for ch in self.no:
            C.fact(z3.ForAll([q], z3.Implies(sp.guard(q), z3.Not(z3.Contains(q, zstr(ch))))))
        return mklayers((CSeg(sp, g, [CPath((), (), ((Sym('str', g), el),))]),))

    def conc(self, m, path, args):
        out = []
        sp = Space('map', path, args)
        for s in model_strings(m):
            if any(ch in s for ch in self.no):
                continue
            if z3.is_true(m.eval(sp.guard(zstr(s)), model_completion=True)):
                out.append([s, self.elem.conc(m, path + '.el', tuple(args) + (zstr(s),))])
            if len(out) >= 8:
                break
        return {'d': out}


def model_strings(m):
    c = getattr(m, '_vc_strings', None)
    if c is not None:
        return c
    acc = set()

    def add(e):
        st = [e]
        while st:
            x = st.pop()
            if z3.is_string_value(x):
                s = pystr(x)
                if len(s) < 40:
                    acc.add(s)
            elif z3.is_app(x):
                st.extend(x.children())
    for d in m.decls():
        i = m[d]
        if isinstance(i, z3.FuncInterp):
            for j in range(i.num_entries()):
                e = i.entry(j)
                for k in range(e.num_args()):
                    add(e.arg_value(k))
                add(e.value())
        elif z3.is_expr(i):
            add(i)
    m._vc_strings = sorted(acc, key=lambda s: (len(s), s))
    return m._vc_strings


class Tup(Shape):
    def __init__(self, *shapes):
        self.shapes = [_shape(s) for s in shapes]

    def mk(self, path, args):
        return tuple(make(s, '%s.%d' % (path, i), args) for i, s in enumerate(self.shapes))

    def conc(self, m, path, args):
        return [s.conc(m, '%s.%d' % (path, i), args) for i, s in enumerate(self.shapes)]


class Sub(object):
    """constructor of a part of an input object"""
    def __init__(self, mk, steps):
        self.mk = mk
        self.steps = steps
        self.vc_name = mk.vc_name + '/' + '/'.join(str(s) for s in steps)

    def __call__(self, *args):
        v = memo_make(self.mk, args)
        for s in self.steps:
            if isinstance(s, tuple):
                c = v.__dict__['~c'][s[0]]
                v = c.vals[s[1]] if isinstance(c, Items) else c.v
            else:
                v = v.__dict__[s]
            while isinstance(v, Lazy):
                v = force(v)
        return v


class Build(Shape):
    """a program object built by fn from the given components"""
    heap = True

    def __init__(self, fn, *shapes, **kw):
        self.fn = fn
        self.shapes = [_shape(s) for s in shapes]
        self.kw = {k: _shape(s) for k, s in kw.items()}

    def mk(self, path, args):
        s0 = C.serial
        a = [make(s, '%s.%d' % (path, i), args) for i, s in enumerate(self.shapes)]
        kw = {k: make(s, '%s.%s' % (path, k), args) for k, s in self.kw.items()}
        v = K(self.fn, *a, **kw)
        if args and isinstance(v, Obj):
            self.tag(v, s0, maker(self, path), args)
        return v

    def tag(self, root, s0, mk, args):
        """parts of the object are functions of the same index"""
        seen = {id(root)}
        work = [(root, ())]
        while work:
            o, steps = work.pop()
            for k, x in list(o.__dict__.items()):
                if k == '~c':
                    kids = []
                    for i, s in enumerate(x):
                        if isinstance(s, Items):
                            kids.extend(((i, j), y) for j, y in enumerate(s.vals))
                        elif isinstance(s, DItem):
                            kids.append(((i, 0), s.v))
                elif k.startswith('~'):
                    continue
                else:
                    kids = [(k, x)]
                for st, y in kids:
                    if isinstance(y, Obj) and y.serial > s0 and id(y) not in seen and '~origin' not in y.__dict__:
                        seen.add(id(y))
                        y.__dict__['~serial'] = 0
                        key = (id(mk), steps + (st,))
                        if key not in _makers:
                            _makers[key] = (Sub(mk, steps + (st,)), mk)
                        y.__dict__['~origin'] = (_makers[key][0], tuple(args))
                        work.append((y, steps + (st,)))

    def conc(self, m, path, args):
        return {'a': [s.conc(m, '%s.%d' % (path, i), args) for i, s in enumerate(self.shapes)],
                'k': {k: s.conc(m, '%s.%s' % (path, k), args) for k, s in self.kw.items()}}

    def sizes(self, path, args, acc):
        for i, s in enumerate(self.shapes):
            s.sizes('%s.%d' % (path, i), args, acc)
        for k, s in self.kw.items():
            s.sizes('%s.%s' % (path, k), args, acc)


class Rec(Shape):
    """dict with the given keys; optional keys may be missing"""
    heap = True

    def __init__(self, req=None, opt=None):
        self.req = {k: _shape(v) for k, v in (_pairs(req) or {}).items()}
        self.opt = {k: _shape(v) for k, v in (_pairs(opt) or {}).items()}

    def mk(self, path, args):
        d = mkdict({})
        lay = []
        for k, s in self.req.items():
            lay.append(DItem(k, make(s, '%s.%s' % (path, k), args)))
        for k, s in self.opt.items():
            if C.branch(fun('%s.%s?' % (path, k), args, z3.BoolSort())):
                lay.append(DItem(k, make(s, '%s.%s' % (path, k), args)))
        return mklayers(lay)

    def conc(self, m, path, args):
        out = []
        for k, s in self.req.items():
            out.append([k, s.conc(m, '%s.%s' % (path, k), args)])
        for k, s in self.opt.items():
            if z3.is_true(m.eval(fun('%s.%s?' % (path, k), args, z3.BoolSort()), model_completion=True)):
                out.append([k, s.conc(m, '%s.%s' % (path, k), args)])
        return {'d': out}

    def sizes(self, path, args, acc):
        for k, s in list(self.req.items()) + list(self.opt.items()):
            s.sizes('%s.%s' % (path, k), args, acc)


# ---------------------------------------------------------------------------
# uninterpreted callees

def scalar_box(a):
    """Val term of a scalar argument, or None"""
    while isinstance(a, Lazy):
        a = force(a)
    if a is None or isinstance(a, (Sym, bool, int, float, str)):
        try:
            return box(a)
        except Unsupported:
            return None
    if isinstance(a, type) or callable(a) and not isinstance(a, Obj):
        return box(a)
    if isinstance(a, tuple) and not hasattr(a, '_fields'):
        xs = [scalar_box(x) for x in a]
        if any(x is None for x in xs):
            return None
        return Val.vo(z3.Function('tuple%d' % len(a), *([Val] * len(a) + [OpqS]))(*xs)) if a else Val.vo(z3.Const('tuple0', OpqS))
    return None


def uheap(name, args, ret):
    """deterministic function of the value of its arguments"""
    args = [force_all(a) for a in args]
    sort = SORTS[ret]
    bs = [scalar_box(a) for a in args if not empty_kw(a)]
    if all(b is not None for b in bs):
        return concrete(Sym(ret, fun(name, tuple(bs), sort))) if ret != 'bytes' else Sym(ret, fun(name, tuple(bs), sort))
    for old, val in memo_lists(('uh', name)):
        if len(old) == len(args) and prove_same_args(old, args):
            return val
    v = Sym(ret, C.fresh(ret, 'uh:' + name))
    memo_add(('uh', name), (args, v))
    return v


def empty_kw(a):
    return isinstance(a, PyDict) and not a.__dict__['~c']


def force_all(a):
    while isinstance(a, Lazy):
        a = force(a)
    if isinstance(a, PyColl):
        # contents may change later: keep the value of now
        n = PyColl.__new__(type(a))
        n.__dict__['~c'] = a.vc_get()
        for k, v in a.__dict__.items():
            if not k.startswith('~'):
                n.__dict__[k] = v
        return n
    return a


def prove_same_args(a, b):
    ok = [True]

    def thunk():
        return all(_same(x, y) for x, y in zip(a, b))

    def on_path(fr, st, v):
        if st != 'ok' or v is not True:
            if C.check() != z3.unsat:
                ok[0] = False
    try:
        C.explore(thunk, on_path)
    except Unsupported:
        return False
    return ok[0]


def ufn(name, ret='str'):
    def f(*a, **k):
        C.called.add(('ufn', name))
        return uheap('ufn.' + name, list(a) + ([mkdict(k)] if k else []), ret)
    return f


# ---------------------------------------------------------------------------
# assumptions and obligations

def assume(c):
    t = truth_t(c)
    if t is None:
        t = bool(c)
    if t is False:
        raise Infeasible()
    if t is not True:
        C.assume(t)
        if C.check() == z3.unsat:
            raise Infeasible()
    return None


SKOLEM = ('sk', 'g', 'e', 'ia', 'ib', 'lw', 'lq', 'w', 'q', 'ka', 'kb', 'tg', 'rand', 'pick', 'ch', 'rnd', 'unif', 'real.floor')


def exact():
    """no abstraction of a library function takes part in the current state"""
    seen = set()
    names = set()
    st = list(C.solver.assertions())
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(d.name())
            st.extend(x.children())
    ins = list(C.inputs[1])
    for n in names:
        if n.startswith('ufn.') or any(n == i or n.startswith((i + '.', i + '#', i + '$', i + '?')) for i in ins):
            continue
        if n.split('!')[0] in SKOLEM:
            continue
        return False
    return True


def fail(label, status, note=''):
    tree = None
    if status == 'sat':
        tree = counter_model()
        if not exact():
            status = 'approx'
    C.failures.append({'label': label, 'status': status, 'tree': tree, 'note': note})


def counter_model():
    """value tree of the harness inputs in a (small) model of the current path"""
    if C.inputs is None:
        return None
    shapes, order = C.inputs
    small = []
    for n in order:
        shapes[n].sizes(n, (), small)
    tries = [small, []] if small else [[]]
    for extra in tries:
        C.solver.push()
        try:
            for e in extra:
                C.solver.add(e)
            if C.solver.check() == z3.sat:
                m = C.solver.model()
                try:
                    return {n: shapes[n].conc(m, n, ()) for n in order}
                except Exception as e:
                    return {'~error': '%s: %s' % (type(e).__name__, e)}
        finally:
            C.solver.pop()
    return None


def ensure(c, label='post', note=''):
    C.stats['obligations'] += 1
    st = C.labels.setdefault(label, [0, 0])
    st[0] += 1
    t = truth_t(c)
    if t is None:
        t = bool(c)
    if t is True:
        ok = True
    elif t is False:
        r = C.check(timeout=20000)
        ok = r == z3.unsat
        status = 'sat' if r == z3.sat else 'unknown'
    else:
        r = C.check(z3.Not(t), timeout=20000)
        ok = r == z3.unsat
        status = 'sat' if r == z3.sat else 'unknown'
    if ok:
        C.stats['discharged'] += 1
        st[1] += 1
        if t is False:
            raise Infeasible()
        if t is not True:
            C.assume(t)
        return None
    if status == 'unknown' and t is not False:
        from .backend import second
        if second(C.solver, z3.Not(t)):
            C.stats['discharged'] += 1
            C.stats['cvc5'] = C.stats.get('cvc5', 0) + 1
            st[1] += 1
            C.assume(t)
            return None
    C.solver.push()
    if t is not False:
        C.solver.add(z3.Not(t))
    try:
        fail(label, status, note)
    finally:
        C.solver.pop()
    raise PathStop()


def same(a, b):
    return _same(a, b)


def ensure_same(a, b, label='same'):
    ensure(_same(a, b), label)


def cover(label):
    if C.covers.get(label) is True:
        return None
    if C.check() == z3.sat:
        C.covers[label] = True
    else:
        C.covers.setdefault(label, False)


class Out(PObj):
    pass


def outcome(fn, *a, **k):
    o = Out()
    d = o.__dict__
    try:
        v = K(fn, *a, **k)
        d['ok'], d['val'], d['exc'] = True, v, None
    except Exception as e:
        chk(e)
        d['ok'], d['val'], d['exc'] = False, None, e
    return o


def patch(o, name, v):
    """replace an attribute (module, class or object) until the end of the path"""
    if isinstance(o, Obj):
        raw_setattr(o, name, v)
        return None
    old = o.__dict__.get(name, MISSING)
    setattr(o, name, v)

    def undo():
        if old is MISSING:
            delattr(o, name)
        else:
            setattr(o, name, old)
    C.journal.append((None, undo))


def compare_with(q):
    """an integer worth comparing with the floors of reals"""
    t = core.lift(norm(q)).t if hasattr(core, 'lift') else rtl.ops.lift(norm(q)).t
    if not any(w.eq(t) for w in C.witnesses):
        C.witnesses.append(t)


def implies(a, b):
    ta, tb = truth_t(a), truth_t(b)
    if ta is None:
        ta = truth(a)
    if ta is False:
        return True
    if tb is None:
        tb = truth(b)
    if ta is True:
        return B(tb) if not isinstance(tb, bool) else tb
    if isinstance(tb, bool):
        return True if tb else B(z3.Not(ta))
    return B(z3.Implies(ta, tb))


def iff(a, b):
    ta, tb = truth_t(a), truth_t(b)
    if ta is None:
        ta = truth(a)
    if tb is None:
        tb = truth(b)
    if isinstance(ta, bool) and isinstance(tb, bool):
        return ta == tb
    za = z3.BoolVal(ta) if isinstance(ta, bool) else ta
    zb = z3.BoolVal(tb) if isinstance(tb, bool) else tb
    return B(za == zb)


def both(*cs):
    fs = []
    for c in cs:
        t = truth_t(c)
        if t is None:
            t = truth(c)
        if t is False:
            return False
        if t is not True:
            fs.append(t)
    return B(z3.And(*fs)) if fs else True


def either(*cs):
    fs = []
    for c in cs:
        t = truth_t(c)
        if t is None:
            t = truth(c)
        if t is True:
            return True
        if t is not False:
            fs.append(t)
    return B(z3.Or(*fs)) if fs else False


def kind_of(v):
    """'none' 'bool' 'int' 'real' 'str' or a class name; forks"""
    v = norm(v)
    k = ops.kind(v)
    if k == 'obj':
        return {PyList: 'list', PyDict: 'dict', PySet: 'set'}.get(type(v), type(v).__name__)
    return k


def unchanged(fn, *objs):
    raise Unsupported('unchanged')


SYMBOLIC = True
API = ['harness', 'Int', 'Real', 'Bool', 'Str', 'Bytes', 'Scalar', 'Any', 'OneOf', 'Union', 'Opt', 'Num', 'ListOf', 'DictOf', 'Tup', 'Build',
       'Rec', 'ufn', 'assume', 'ensure', 'same', 'ensure_same', 'cover', 'outcome', 'patch', 'implies', 'compare_with', 'iff', 'both', 'either', 'kind_of', 'SYMBOLIC']


def _native(f):
    try:
        f._vc_native = True
    except (AttributeError, TypeError):
        pass
    return f


def make_module(loader):
    import types
    m = types.ModuleType('vc')
    for n in API:
        v = globals()[n]
        m.__dict__[n] = v
    m.__dict__['__all__'] = list(API)
    for n in ('Int', 'Real', 'Bool', 'Str', 'Bytes', 'Scalar', 'OneOf', 'Union', 'ListOf', 'DictOf', 'Tup', 'Build', 'Rec'):
        cls = globals()[n]
        m.__dict__[n] = (lambda c: _native(lambda *a, **k: c(*[x for x in a], **k)))(cls)
    return m


# ---------------------------------------------------------------------------
# running one harness

def run_harness(h, budget):
    C.reset()
    t0 = time.time()
    C.deadline = t0 + budget
    C.inputs = (h.inputs, list(h.inputs))
    res = {'id': h.id, 'prop': h.prop, 'mode': 'proof'}
    paths = [0]

    def thunk():
        args = {n: make(s, n, ()) for n, s in h.inputs.items()}
        return K(h.fn, **args)

    def on_path(fr, st, v):
        paths[0] += 1
        if st == 'raise':
            C.stats['obligations'] += 1
            r = C.check(timeout=20000)
            if r == z3.unsat:
                C.stats['discharged'] += 1
                return
            import traceback
            tb = ''.join(traceback.format_exception(type(v), v, v.__traceback__)[-6:])
            fail('no-unexpected-exception', 'sat' if r == z3.sat else 'unknown', '%s: %s\n%s' % (type(v).__name__, v, tb))
        elif st == 'ok':
            if '~end' not in C.covers:
                if C.check() == z3.sat:
                    C.covers['~end'] = True

    status, why = 'proved', ''
    try:
        C.explore(thunk, on_path)
    except core.Budget as e:
        status, why = 'budget', str(e)
    except Unsupported as e:
        status, why = 'unsupported', '%s' % e
        res['trace'] = short_trace(e)
    except EngineError as e:
        status, why = 'engine-error', '%s' % e
        res['trace'] = short_trace(e)
    except RecursionError as e:
        status, why = 'engine-error', 'recursion'
    except z3.Z3Exception as e:
        status, why = 'engine-error', 'z3: %s' % e
        res['trace'] = short_trace(e)
    definite = [f for f in C.failures if f['status'] == 'sat']
    if C.failures:
        # a refuted obligation is final; otherwise the prover is only incomplete
        status = 'failed' if definite else ('incomplete' if status == 'proved' else status)
    missing = [c for c in h.opts.get('covers', []) if not C.covers.get(c)]
    if status == 'proved' and (C.stats['obligations'] == 0 or missing):
        status, why = 'vacuous', 'covers not reached: %s' % missing
    res.update(status=status, why=why, failures=C.failures, stats=dict(C.stats), labels=C.labels, paths=paths[0],
               trusted=sorted(C.trusted), called=sorted(set((a[0], a[1]) for a in C.called if a[0] != 'ufn')), ufns=sorted(a[1] for a in C.called if a[0] == 'ufn'),
               covers=C.covers, wall=round(time.time() - t0, 2))
    return res


def short_trace(e):
    import traceback
    fr = traceback.extract_tb(e.__traceback__)
    if e.__cause__ is not None:
        fr = traceback.extract_tb(e.__cause__.__traceback__)
    keep = ['%s:%d %s' % (f.filename.replace('/verif/pyvc/', ''), f.lineno, f.name) for f in fr]
    return keep[-14:]
