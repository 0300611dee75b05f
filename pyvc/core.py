"""Core of pyvc: symbolic values, path exploration by re-execution, heap journal.

Every path of a harness is executed from its start with a recorded decision
prefix; all heap mutation is journaled so that nested explorations (loop bodies
on a generic element) can be rolled back.
"""
import z3
import time

z3.set_param('model.compact', False)

OpqS = z3.DeclareSort('Opq')
_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('vb', ('b', z3.BoolSort()))
_V.declare('vi', ('i', z3.IntSort()))
_V.declare('vr', ('r', z3.RealSort()))
_V.declare('vs', ('s', z3.StringSort()))
_V.declare('vo', ('o', OpqS))
Val = _V.create()

BytesS = z3.StringSort()         # bytes: texts of characters 0..255
SORTS = {'bytes': BytesS,'bool': z3.BoolSort(), 'int': z3.IntSort(), 'real': z3.RealSort(),
         'str': z3.StringSort(), 'val': Val, 'opq': OpqS}


class EngineSignal(BaseException):
    """never visible to interpreted code (its except clauses catch Exception)"""


class Unsupported(EngineSignal):
    """the code under proof uses something outside the verified subset"""


class Infeasible(EngineSignal):
    """current path condition is contradictory"""


class PathStop(EngineSignal):
    """stop the current path (obligation already failed on it)"""


class Budget(EngineSignal):
    """exploration budget exhausted"""


class EngineError(EngineSignal):
    """internal error of the verifier"""


def prog(e):
    """mark an exception as raised on behalf of the interpreted program"""
    e._vc_ok = True
    return e


def _fwd(name):
    def m(self, *a):
        return getattr(OPS, name)(self, *a)
    m.__name__ = name
    return m


class OpsHolder(object):
    pass


OPS = OpsHolder()


class Dunder(object):
    """python operators on symbolic values"""
    __slots__ = ()
    for _n in ('bool', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul',
               'mod', 'rmod', 'truediv', 'rtruediv', 'floordiv', 'rfloordiv', 'neg', 'pos', 'abs', 'invert',
               'getitem', 'contains', 'iter', 'len', 'or', 'ror', 'and', 'rand', 'pow', 'rpow', 'int', 'float',
               'lshift', 'rlshift', 'rshift', 'rrshift', 'index', 'divmod', 'round', 'xor', 'rxor', 'delitem', 'setitem', 'call',
               'enter', 'exit'):
        locals()['__%s__' % _n] = _fwd('op_' + _n)
    del _n

    def __str__(self):
        raise Unsupported('native str() of a symbolic value')

    def __hash__(self):
        raise Unsupported('native hash of a symbolic value')

    def __getattr__(self, name):
        return OPS.op_getattr(self, name)


class Sym(Dunder):
    __slots__ = ('k', 't', 'meta')

    def __init__(self, k, t, meta=None):
        self.k = k
        self.t = t
        self.meta = meta

    def __repr__(self):
        return 'Sym(%s,%s)' % (self.k, self.t)


class Lazy(Dunder):
    """a value whose alternative is picked when it is first used"""
    __slots__ = ('thunk', 'val', 'done', 'ident')

    def __init__(self, thunk, ident=None):
        self.thunk = thunk
        self.val = None
        self.done = False
        self.ident = ident


class Obj(object):
    """base of all heap objects (also of every class of the program)"""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        d = o.__dict__
        d['~serial'] = C.next_serial()
        return o

    @property
    def serial(self):
        return self.__dict__['~serial']


class Frame(object):
    def __init__(self, fid, decisions, serial0):
        self.fid = fid
        self.decisions = decisions
        self.pos = 0
        self.pc = []
        self.skolems = []
        self.counter = 0
        self.serial0 = serial0
        self.reads = set()      # slots read before written
        self.writes = {}        # slot -> (obj, key, old value)
        self.kreads = []        # (dict, key) looked up
        self.emut = {}          # slots of the element of the loop that were written
        self.fact_in = set()
        self.kinds = {}
        self.memo = {}
        self.joins = {}
        self.pending = []


class Ctx(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.frames = []
        self.journal = []
        self.serial = 0
        self.tops = 0
        self.stats = dict(checks=0, solver_s=0.0, paths=0, unknown=0, discharged=0,
                          obligations=0, loops=0, folds=0)
        self.failures = []
        self.labels = {}
        self.covers = {}
        self.max_paths = 4000
        self.deadline = None
        self.max_depth = 60
        self.inputs = None
        self.space_terms = {}
        self.facts = {}
        self.trusted = set()
        self.called = set()
        self.draws = 0
        self.symcache = {}
        self.groupcache = {}
        self.floors = False
        self.witnesses = []     # integers the floors of reals are compared with

    # -- heap ---------------------------------------------------------------
    def next_serial(self):
        self.serial += 1
        return self.serial

    def undo_to(self, mark, serial0=None):
        """objects made after serial0 are reachable only through captured results, and keep their final state"""
        j = self.journal
        while len(j) > mark:
            o, u = j.pop()
            if o is None or serial0 is None or o.__dict__.get('~serial', 0) <= serial0:
                u()

    # -- solver -------------------------------------------------------------
    def symbols(self, f):
        """(uninterpreted symbols of a formula, does it deal with texts)"""
        i = f.get_id()
        m = self.symcache.get(i)
        if m is not None:
            return m[1], m[2]
        seen, names, texts, todo = set(), set(), False, [f]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                texts = True
                continue
            if not z3.is_app(x):
                continue
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            if z3.is_seq(x) or z3.is_re(x):
                texts = True
            todo.extend(x.children())
        self.symcache[i] = (f, names, texts)
        return names, texts

    def component(self, f):
        """(the assumptions that share symbols with a formula, directly or not; are there others; do these deal with texts)"""
        names, texts = self.symbols(f)
        names = set(names)
        rest = [(x,) + self.symbols(x) for fr in self.frames for x in fr.pc]
        out = []
        more = True
        while more:
            more = False
            left = []
            for x in rest:
                if x[1] & names or not x[1]:
                    out.append(x[0])
                    names |= x[1]
                    texts = texts or x[2]
                    more = True
                else:
                    left.append(x)
            rest = left
        return out, bool(rest), texts

    def small(self, fs, timeout=4000):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        return r

    def check_formula(self, f):
        """may a formula hold on the current path? The assumptions that share no symbol
        with it do not matter as long as they hold together"""
        part, others, texts = self.component(f)
        if not others:
            return None
        if texts:
            r = self.check(f, timeout=400)
            if r != z3.unknown:
                return r
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        self.stats['checks'] += 1
        return self.small(part + [f])

    def check_path(self):
        """do the assumptions hold together? Decided by groups that share no symbols"""
        groups = []
        for x in (x for fr in self.frames for x in fr.pc):
            names = set(self.symbols(x)[0])
            mine = [x]
            rest = []
            for g in groups:
                if g[0] & names:
                    names |= g[0]
                    mine = g[1] + mine
                else:
                    rest.append(g)
            rest.append((names, mine))
            groups = rest
        if len(groups) < 2:
            return None
        out = z3.sat
        for names, fs in groups:
            k = frozenset(x.get_id() for x in fs)
            r = self.groupcache.get(k)
            if r is None:
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time')
                self.stats['checks'] += 1
                r = self.groupcache[k] = self.small(fs)
            if r == z3.unsat:
                return r
            if r == z3.unknown:
                out = r
        return out

    def check(self, extra=None, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        if not timeout and not self.floors and self.frames:
            r = None
            if extra is None:
                r = self.check_path()
            elif not isinstance(extra, (list, tuple)):
                r = self.check_formula(extra)
            if r is not None:
                if r == z3.unknown:
                    self.stats['unknown'] += 1
                return r
        self.stats['checks'] += 1
        t = time.time()
        if self.floors:
            # mixed integers and reals: the second solver decides what the first one does not at once
            timeout = 150
        if timeout:
            self.solver.set('timeout', timeout)
        if extra is None:
            r = self.solver.check()
        else:
            r = self.solver.check(*extra) if isinstance(extra, (list, tuple)) else self.solver.check(extra)
        if timeout:
            self.solver.set('timeout', 4000)
        if r == z3.unknown and self.floors:
            from . import backend
            ex = [] if extra is None else extra if isinstance(extra, (list, tuple)) else [extra]
            r = {'unsat': z3.unsat, 'sat': z3.sat}.get(backend.answer(self.solver, ex, 3), z3.unknown)
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    @property
    def frame(self):
        return self.frames[-1]

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.frame.pc.append(f)
        self.solver.add(f)

    def assume_c(self, c):
        if c.get_id() in self.facts:
            self.fact(c)
        else:
            self.assume(c)

    def fact(self, f):
        """assume a formula that holds by definition of the symbols in it (never a case split)"""
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.facts and any(i in fr.fact_in for fr in self.frames):
            return
        self.facts[i] = f
        self.frame.fact_in.add(i)
        self.frame.pc.append(f)
        self.solver.add(f)

    def fresh(self, kind, hint='x'):
        fr = self.frame
        fr.counter += 1
        c = z3.Const('%s!%s.%d' % (hint, fr.fid, fr.counter), SORTS[kind] if isinstance(kind, str) else kind)
        fr.skolems.append(c)
        return c

    def uid(self):
        fr = self.frame
        fr.counter += 1
        return '%s.%d' % (fr.fid, fr.counter)

    def _decide(self, options_fn, n):
        """generic n-way decision; options_fn(i) -> formula or None"""
        fr = self.frame
        if fr.pos < len(fr.decisions):
            d = fr.decisions[fr.pos]
            fr.pos += 1
            f = options_fn(d)
            if f is not None:
                self.assume(f)
            return d
        feas = []
        for i in range(n):
            f = options_fn(i)
            if f is None:
                feas.append(i)
                continue
            if f is True:
                feas.append(i)
                continue
            if f is False:
                continue
            fs = z3.simplify(f) if not z3.is_quantifier(f) else f
            if z3.is_true(fs):
                feas.append(i)
                continue
            if z3.is_false(fs):
                continue
            if n == 2 and i == 1 and not feas:
                # the other side is impossible, so this one holds (or path is dead)
                feas.append(1)
                continue
            if self.check(f) != z3.unsat:
                feas.append(i)
        if not feas:
            raise Infeasible()
        for alt in reversed(feas[1:]):
            fr.pending.append(fr.decisions[:fr.pos] + [alt])
        d = feas[0]
        fr.decisions = fr.decisions[:fr.pos] + [d]
        fr.pos += 1
        f = options_fn(d)
        if f is not None:
            self.assume(f)
        return d

    def branch(self, t):
        """fork on a z3 Bool, returns a python bool"""
        if t is True or t is False:
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        nt = z3.Not(t)
        k, nk = t.get_id(), (t.arg(0) if z3.is_not(t) else nt).get_id()
        for fr in self.frames:
            for f in fr.pc:
                i = f.get_id()
                if i == k:
                    return True
                if i == nk:
                    return False
        return self._decide(lambda i: t if i == 0 else nt, 2) == 0

    def choose(self, n):
        if n == 1:
            return 0
        return self._decide(lambda i: None, n)

    # -- exploration --------------------------------------------------------
    def explore(self, thunk, on_path):
        """run thunk on all paths. on_path(frame, status, value) is called with
        the frame still active (heap and solver state of that path visible)."""
        if self.frames:
            fid = '%s/%d' % (self.frame.fid, self.frame.counter)
            self.frame.counter += 1
        else:
            self.tops += 1
            fid = 'h'
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if n > self.max_paths:
                raise Budget('paths')
            if self.deadline and time.time() > self.deadline:
                raise Budget('time')
            fr = Frame(fid, prefix, self.serial)
            mark = len(self.journal)
            self.frames.append(fr)
            self.solver.push()
            self.stats['paths'] += 1
            try:
                try:
                    v = thunk()
                    st = 'ok'
                except Exception as e:
                    chk(e)
                    st, v = 'raise', e
                except Infeasible:
                    st, v = 'dead', None
                except PathStop:
                    st, v = 'stop', None
                if st != 'dead':
                    try:
                        on_path(fr, st, v)
                    except Infeasible:
                        pass
                    except PathStop:
                        pass
                work.extend(fr.pending)
            finally:
                self.undo_to(mark, fr.serial0)
                self.solver.pop()
                self.frames.pop()
        return n

    # -- access tracking ----------------------------------------------------
    def note_read(self, obj, key):
        s = (id(obj), key)
        for fr in self.frames[1:]:
            if obj.serial <= fr.serial0 and s not in fr.writes:
                fr.reads.add(s)

    def note_kread(self, obj, key):
        for fr in self.frames[1:]:
            if obj.serial <= fr.serial0:
                fr.kreads.append((obj, key))

    def note_write(self, obj, key, old):
        s = (id(obj), key)
        if '~gen' in obj.__dict__:
            el = obj.__dict__.get('~el')
            if el is None or el not in self.frames:
                raise Unsupported('mutation of an object reached through a collection of unbounded size')
            # the element a loop is at: the loop changes every element
            el.emut.setdefault(s, (obj, key))
        for fr in self.frames[1:]:
            if obj.serial <= fr.serial0 and s not in fr.writes:
                fr.writes[s] = (obj, key, old)


C = Ctx()

import os as _os
HERE = _os.path.dirname(_os.path.abspath(__file__))


def chk(e):
    """an exception that escaped interpreted code: make sure it is not an engine bug"""
    if getattr(e, '_vc_ok', False):
        return
    tb = e.__traceback__
    if tb is None:
        return
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    if not fn.startswith('<vc'):
        raise EngineError('%s: %s' % (type(e).__name__, e)) from e
    e._vc_ok = True


def zstr(s):
    """python str -> z3 string literal (escapes made explicit)"""
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '\\' or o < 32 or o > 126:
            out.append('\\u{%x}' % o)
        else:
            out.append(ch)
    return z3.StringVal(''.join(out))


def pystr(t):
    """z3 string literal -> python str"""
    raw = t.as_string()
    out, i = [], 0
    while i < len(raw):
        if raw.startswith('\\u{', i):
            j = raw.index('}', i)
            out.append(chr(int(raw[i + 3:j], 16)))
            i = j + 1
        elif raw.startswith('\\x', i):
            out.append(chr(int(raw[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(raw[i])
            i += 1
    return ''.join(out)


def zreal(f):
    from fractions import Fraction
    fr = Fraction(f)
    return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))


def lift(v):
    """concrete scalar -> Sym"""
    if isinstance(v, Sym):
        return v
    if isinstance(v, bool):
        return Sym('bool', z3.BoolVal(v))
    if isinstance(v, int):
        return Sym('int', z3.IntVal(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        return Sym('real', zreal(v))
    if isinstance(v, str):
        return Sym('str', zstr(v))
    raise Unsupported('lift %r' % (v,))


_opq_ids = {}


def box(v):
    """any value -> term of sort Val (opaque identity for heap objects)"""
    if v is None:
        return Val.none
    if isinstance(v, Sym):
        if v.k == 'val':
            return v.t
        if v.k == 'bytes':
            return Val.vo(z3.Function('bytes.box', BytesS, OpqS)(v.t))
        return {'bool': Val.vb, 'int': Val.vi, 'real': Val.vr, 'str': Val.vs, 'opq': Val.vo}[v.k](v.t)
    if isinstance(v, (bool, int, float, str)):
        return box(lift(v))
    if isinstance(v, Lazy):
        if v.ident is not None and not isinstance(v.ident, tuple):
            return v.ident
        return box(force(v))
    if isinstance(v, Obj):
        g = v.__dict__.get('~ghost')
        if g is None:
            o = v.__dict__.get('~origin')
            if o is not None and o[1]:
                f = z3.Function('obj@%s' % o[0].vc_name, *([a.sort() for a in o[1]] + [OpqS]))
                g = Val.vo(f(*o[1]))
            else:
                g = Val.vo(z3.Const('obj#%d' % v.serial, OpqS))
            v.__dict__['~ghost'] = g
        return g
    if isinstance(v, type) or callable(v):
        return Val.vo(z3.Const('fn#%d' % id(v), OpqS))
    if isinstance(v, bytes):
        return Val.vo(z3.Function('bytes.box', BytesS, OpqS)(zstr(v.decode('latin-1'))))
    if isinstance(v, tuple):
        f = z3.Function('tuple%d' % len(v), *([Val] * len(v) + [OpqS])) if v else None
        if f is None:
            return Val.vo(z3.Const('tuple0', OpqS))
        return Val.vo(f(*[box(x) for x in v]))
    raise Unsupported('box %r' % (v,))


def unbox_sym(s):
    """simplify Sym of kind val whose constructor is syntactically known"""
    t = z3.simplify(s.t)
    if z3.is_app(t):
        n = t.decl().name()
        if n == 'none':
            return None
        if n in ('vb', 'vi', 'vr', 'vs', 'vo'):
            k = {'vb': 'bool', 'vi': 'int', 'vr': 'real', 'vs': 'str', 'vo': 'opq'}[n]
            return concrete(Sym(k, t.arg(0)))
    return None if False else s


def concrete(s):
    """Sym with a literal term -> python value"""
    t = z3.simplify(s.t)
    if s.k == 'bool':
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    elif s.k == 'int' and z3.is_int_value(t):
        return t.as_long()
    elif s.k == 'str' and z3.is_string_value(t):
        return pystr(t)
    return Sym(s.k, t)


_CONS = [('none', Val.is_none), ('bool', Val.is_vb), ('int', Val.is_vi), ('real', Val.is_vr),
         ('str', Val.is_vs), ('opq', Val.is_vo)]
_ACC = {'bool': Val.b, 'int': Val.i, 'real': Val.r, 'str': Val.s, 'opq': Val.o}


def is_kind(t, k):
    for n, rec in _CONS:
        if n == k:
            return rec(t)
    raise KeyError(k)


def norm(v):
    """value with a known kind (forks when the kind is open)"""
    while isinstance(v, Lazy):
        v = force(v)
    if isinstance(v, Sym) and v.k == 'val':
        u = unbox_sym(v)
        if u is None or not (isinstance(u, Sym) and u.k == 'val'):
            return u
        key = v.t.get_id()
        for fr in reversed(C.frames):
            if key in fr.kinds:
                k = fr.kinds[key][0]
                break
        else:
            t = v.t
            i = C._decide(lambda i: _CONS[i][1](t), len(_CONS))
            k = _CONS[i][0]
            C.frame.kinds[key] = (k, t)
        if k == 'none':
            return None
        return Sym(k, _ACC[k](v.t))
    return v


def force(l):
    if not l.done:
        v = l.thunk()
        l.val = v
        l.done = True

        def undo():
            l.done = False
            l.val = None
        undo.writes = False
        C.journal.append((None, undo))
    return l.val


def memo_get(key):
    for fr in reversed(C.frames):
        if key in fr.memo:
            return fr.memo[key]
    return None


def memo_put(key, v):
    C.frame.memo[key] = v


def memo_lists(key):
    for fr in reversed(C.frames):
        for x in fr.memo.get(key, ()):
            yield x


def memo_add(key, v):
    C.frame.memo.setdefault(key, []).append(v)


def valid(f):
    """is f implied by the current path condition?"""
    if isinstance(f, bool):
        return f
    f = z3.simplify(f) if not z3.is_quantifier(f) else f
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return C.check() == z3.unsat
    return C.check(z3.Not(f)) == z3.unsat
