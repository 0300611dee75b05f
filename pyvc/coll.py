"""Collections of unbounded length, and loops over them.

A list is a sequence of segments: concrete items, or a comprehension (CSeg) over
an abstract index space.  A loop over a CSeg is executed once on a generic
element; its effects are turned into comprehensions (independent iterations) or
into a fold symbol (dependent iterations).
"""
import copy
import types
import z3
from .core import (C, Sym, Lazy, Obj, Val, SORTS, Unsupported, Infeasible, PathStop, EngineError,
                   box, norm, lift, concrete, zstr, OpqS)


class Space(object):
    """index space of a symbolic collection"""
    def __init__(self, kind, name, args, order=None):
        self.kind = kind            # 'seq', 'map', or 'perm': a seq in an unknown order
        self.name = name
        self.args = tuple(args)
        self.order = order          # identity of an unknown order other than the own one

    @property
    def sort(self):
        return z3.StringSort() if self.kind == 'map' else z3.IntSort()

    def length(self):
        f = z3.Function(self.name + '.len', *([a.sort() for a in self.args] + [z3.IntSort()]))
        return f(*self.args)

    def guard(self, g):
        if self.kind != 'map':
            return z3.And(g >= 0, g < self.length())
        f = z3.Function(self.name + '.dom', *([a.sort() for a in self.args] + [z3.StringSort(), z3.BoolSort()]))
        return f(*(self.args + (g,)))

    def before(self, a, b):
        if self.kind == 'seq':
            return a < b
        xs = self.args + (() if self.order is None else (self.order,))
        f = z3.Function(self.name + ('.ord' if self.order is None else '.perm'), *([x.sort() for x in xs] + [self.sort, z3.IntSort()]))
        return f(*(xs + (a,))) < f(*(xs + (b,)))

    def after(self, a, b):
        return self.before(b, a)

    def same(self, o):
        return (self.kind == o.kind and self.name == o.name and len(self.args) == len(o.args) and
                all(x.eq(y) for x, y in zip(self.args, o.args)) and same_order(self, o))

    def reordered(self):
        return Space('map' if self.kind == 'map' else 'perm', self.name, self.args, C.fresh(z3.IntSort(), 'perm'))

    def subst(self, m):
        if not self.args and self.order is None:
            return self
        return Space(self.kind, self.name, [z3.substitute(a, *m) for a in self.args], None if self.order is None else z3.substitute(self.order, *m))


def same_order(a, b):
    return (a.order is None and b.order is None) or (a.order is not None and b.order is not None and a.order.eq(b.order))


class Items(object):
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)


class SetSeg(object):
    """the different values of segments, in an order that is not known: only membership is"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __getattr__(self, n):
        raise Unsupported('use of the items of a set made from a symbolic collection')


def flat(segs):
    """segments with the same members"""
    for s in segs:
        if isinstance(s, SetSeg):
            yield from flat(s.segs)
        else:
            yield s


class CPath(object):
    __slots__ = ('conds', 'skolems', 'outs', 'owned')

    def __init__(self, conds, skolems, outs, owned=(0, 0)):
        self.conds = tuple(conds)
        self.skolems = tuple(skolems)
        self.outs = tuple(outs)
        self.owned = owned


class CSeg(object):
    """comprehension: for g in space: by path: outs.  For lists outs are
    segments, for dicts they are (key, value) pairs."""
    __slots__ = ('space', 'g', 'paths', 'extra')

    def __init__(self, space, g, paths, extra=None):
        self.space = space
        self.g = g
        self.paths = tuple(paths)
        self.extra = extra


class DItem(object):
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k = k
        self.v = v


class DDel(object):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


# ---------------------------------------------------------------------------
class PyColl(Obj):
    """common part of list / dict / set objects of the program"""

    @property
    def vc_c(self):
        return self.__dict__['~c']

    def vc_get(self):
        C.note_read(self, '~c')
        return self.__dict__['~c']

    def vc_set(self, content):
        d = self.__dict__
        old = d['~c']
        C.note_write(self, '~c', old)
        d['~c'] = tuple(content)

        def undo():
            d['~c'] = old
        C.journal.append((self, undo))

    def __new__(cls, *a, **k):
        o = Obj.__new__(cls)
        o.__dict__['~c'] = ()
        return o


class PyList(PyColl):
    def vc_append_seg(self, seg):
        # an append does not depend on the current content
        d = self.__dict__
        old = d['~c']
        C.note_write(self, '~c', old)
        d['~c'] = old + (seg,)

        def undo():
            d['~c'] = old
        C.journal.append((self, undo))

    def vc_append(self, v):
        self.vc_append_seg(Items((v,)))

    def vc_items(self):
        """list of values when the length is concrete, else None"""
        out = []
        for s in self.vc_get():
            if isinstance(s, Items):
                out.extend(s.vals)
            else:
                return None
        return out


def mklist(vals):
    return mksegs((Items(vals),) if vals else ())


def mksegs(segs, cls=None):
    o = PyColl.__new__(cls or PyList)
    o.__dict__['~c'] = tuple(segs)
    return o


class PyDict(PyColl):
    """layers: DItem / DDel / CSeg(with (k,v) outs), later layers win"""

    def vc_put(self, k, v):
        d = self.__dict__
        old = d['~c']
        C.note_write(self, '~c', old)
        d['~c'] = old + (DItem(k, v),)
        c = d.get('~k')
        if c is not None and c[0] is old and c[1] is not None and ishash(k):
            # keep the index current without copying it for every store
            if len(c[2]) == len(old):
                c[1][k] = v
                c[2].append(k)
                d['~k'] = (d['~c'], c[1], c[2])
                # the shared index is invalidated by undo

        def undo():
            d['~c'] = old
            d['~k'] = None
        C.journal.append((self, undo))

    def vc_del(self, k):
        self.vc_set(self.__dict__['~c'] + (DDel(k),))

    def vc_conc(self):
        """python dict when every key is concrete, else None"""
        C.note_read(self, '~c')
        return self.vc_conc_raw()

    def vc_conc_raw(self):
        d = self.__dict__
        c = d.get('~k')
        layers = d['~c']
        if c is not None and c[0] is layers:
            return c[1]
        out = {}
        for l in layers:
            if isinstance(l, DItem) and ishash(l.k):
                out[l.k] = l.v
            elif isinstance(l, DDel) and ishash(l.k):
                out.pop(l.k, None)
            else:
                out = None
                break
        d['~k'] = (layers, out, list(layers))
        return out


class PySet(PyDict):
    pass


class PyFrozen(PySet):
    pass


def ishash(k):
    if isinstance(k, Sym) or isinstance(k, Lazy):
        return False
    if isinstance(k, tuple):
        return all(ishash(x) for x in k)
    return True


def mklayers(layers, cls=None):
    o = PyColl.__new__(cls or PyDict)
    o.__dict__['~c'] = tuple(layers)
    return o


def mkdict(d):
    return mklayers([DItem(k, v) for k, v in d.items()])


# ---------------------------------------------------------------------------
# substitution of generic elements

_cloners = []


def memo_make(maker, args):
    key = ('mk', id(maker), tuple(a.get_id() for a in args))
    for fr in reversed(C.frames):
        if key in fr.memo:
            return fr.memo[key][0]
    v = maker(*args)
    if not isinstance(v, Obj):
        return v        # scalars carry assumptions and are rebuilt on every use
    if isinstance(v, Obj):
        # part of the symbolic input: exists before any loop iteration
        v.__dict__['~serial'] = 0
        v.__dict__['~origin'] = (maker, tuple(args))
    used = set()
    for a in args:
        fv(a, used)
    # the innermost frame that introduced one of the arguments keeps it
    tgt = C.frames[0]
    for fr in C.frames[1:]:
        if any(s.get_id() in used for s in fr.skolems):
            tgt = fr
    tgt.memo[key] = (v, args, maker)
    return v


class Subst(object):
    gen = False
    el = None

    def __init__(self, m, owned=()):
        self.m = [(a, b) for a, b in m if not a.eq(b)]
        self.owned = list(owned)
        self.memo = {}

    def term(self, t):
        if not self.m:
            return t
        return z3.substitute(t, *self.m)

    def owns(self, o):
        # clones stand for what they were cloned from
        d = o.__dict__
        return any(a < n <= b for n in (d['~serial'],) + d.get('~lin', ()) for a, b in self.owned)

    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, Sym):
            return concrete(Sym(v.k, self.term(v.t))) if self.m else v
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        if isinstance(v, Lazy):
            if not self.m:
                return v
            if id(v) in self.memo:
                return self.memo[id(v)][0]
            if v.done:
                r = self(v.val)
            elif v.ident is not None and isinstance(v.ident, tuple):
                maker, args = v.ident
                na = tuple(self.term(a) for a in args)
                r = v if all(a.eq(b) for a, b in zip(na, args)) else memo_make(maker, na)
            else:
                r = v
            self.memo[id(v)] = (r, v)
            return r
        if isinstance(v, Items):
            return Items([self(x) for x in v.vals])
        if isinstance(v, CSeg):
            return self.cseg(v)
        if isinstance(v, SetSeg):
            return SetSeg([self(s) for s in v.segs])
        if isinstance(v, DItem):
            return DItem(self(v.k), self(v.v))
        if isinstance(v, DDel):
            return DDel(self(v.k))
        if isinstance(v, Obj):
            if id(v) in self.memo:
                return self.memo[id(v)][0]
            org = v.__dict__.get('~origin')
            if org is not None:
                maker, args = org
                na = tuple(self.term(a) for a in args)
                r = v if all(a.eq(b) for a, b in zip(na, args)) else memo_make(maker, na)
                self.memo[id(v)] = (r, v)
                return r
            if self.owns(v):
                for cl in _cloners:
                    r = cl(self, v)
                    if r is not None:
                        return r
                raise Unsupported('cannot clone %s for a generic element' % type(v).__name__)
            return v
        for cl in _cloners:
            r = cl(self, v)
            if r is not None:
                return r
        return v

    def cseg(self, s):
        inner = copy.copy(self)
        paths = []
        for p in s.paths:
            paths.append(CPath([subcond(self, c) for c in p.conds], p.skolems,
                               [inner(o) if not (isinstance(o, tuple)) else (inner(o[0]), inner(o[1])) for o in p.outs],
                               p.owned))
        return CSeg(s.space.subst(self.m), s.g, paths, s.extra)


def _clone_basic(su, v):
    if isinstance(v, Obj):
        n = Obj.__new__(type(v))
        n.__dict__['~lin'] = v.__dict__.get('~lin', ()) + (v.serial,)
        su.memo[id(v)] = (n, v)
        for k, x in list(v.__dict__.items()):
            if k in ('~serial', '~origin', '~ghost', '~k', '~gen', '~lin', '~src', '~el', '~leak', '~ver'):
                continue
            if k == '~c':
                n.__dict__[k] = tuple(su(s) for s in x)
            else:
                n.__dict__[k] = su(x)
        if su.gen:
            n.__dict__['~gen'] = True
            n.__dict__['~src'] = v
            if su.el is not None:
                n.__dict__['~el'] = su.el
            else:
                # an instance exists apart from the collection
                v.__dict__['~leak'] = True
        return n
    return None


_cloners.append(_clone_basic)


def inst_path(cseg, p, term, el=None, back=None):
    """instantiate path p of cseg at generic term: (conds, outs)"""
    m = [(cseg.g, term)]
    for s in p.skolems:
        m.append((s, C.fresh(s.sort(), 'sk')))
    if back is not None:
        back.extend((b, a) for a, b in m)
    su = Subst(m, [p.owned])
    su.gen = True
    su.el = el
    conds = [subcond(su, c) for c in p.conds]
    outs = [(su(o[0]), su(o[1])) if isinstance(o, tuple) else su(o) for o in p.outs]
    return conds, outs


def fv(t, acc=None):
    """names of uninterpreted constants in term"""
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(i)
            for j in range(x.num_args()):
                st.append(x.arg(j))
    return acc


def subcond(su, c):
    """instantiate a path condition; instances of facts are facts"""
    n = su.term(c)
    if c.get_id() in C.facts:
        C.facts[n.get_id()] = n
    return n


def real_conds(p):
    return [c for c in p.conds if c.get_id() not in C.facts]


def nopath(p, g, x, more=()):
    """formula: index x does not take path p (of a comprehension or loop over g)"""
    sk = set(s.get_id() for s in p.skolems)
    conds = []
    for c in p.conds:
        if c.get_id() in C.facts and not (sk & fv(c)):
            continue
        conds.append(z3.substitute(c, (g, x)))
    return z3.Not(closed(conds + list(more), p.skolems))


def seg_facts(paths, x):
    '''facts about the element at index x of the collection the paths run over'''
    out, seen = [], set()
    for p in paths:
        sk = set(s.get_id() for s in p.skolems)
        for c in p.conds:
            if c.get_id() in C.facts and not (sk & fv(c)):
                n = z3.substitute(c, (p.g, x)) if hasattr(p, 'g') else c
                if not n.eq(c) and n.get_id() not in seen:
                    seen.add(n.get_id())
                    C.facts[n.get_id()] = n
                    out.append(n)
    return out


def closed(conds, skolems):
    """Exists(skolems, And(conds)) keeping only the skolems used"""
    if not conds:
        return z3.BoolVal(True)
    body = z3.And(*conds) if len(conds) > 1 else conds[0]
    used = fv(body)
    sk = [s for s in skolems if s.get_id() in used]
    return z3.Exists(sk, body) if sk else body


def forall(vs, body):
    body = z3.simplify(body)
    if z3.is_true(body) or z3.is_false(body):
        return body
    used = fv(body)
    vs = [v for v in vs if v.get_id() in used]
    if not vs:
        return body
    f = z3.ForAll(vs, body)
    if len(vs) == 1:
        # instances at the elements under consideration
        srt = vs[0].sort()
        near = [s for fr in reversed(C.frames) for s in fr.skolems if s.sort() == srt and s.get_id() != vs[0].get_id()
                and s.decl().name().split('!')[0] in ('g', 'lw', 'w', 'e', 'ia', 'ib', 'tg')][:6]
        if near:
            return z3.And(f, *[z3.substitute(body, (vs[0], s)) for s in near])
    return f


# ---------------------------------------------------------------------------
# loops

class Exit(object):
    """control result of a loop body: kind in break/return/raise/stop"""
    def __init__(self, kind, val=None):
        self.kind = kind
        self.val = val


def run_loop(segs, body, env=None):
    """body(value) -> None (normal/continue) or Exit.  returns None if all
    iterations completed, or the Exit (break/return) that ended the loop; an
    iteration that raises makes the loop raise."""
    for s in segs:
        if isinstance(s, Items):
            for v in s.vals:
                r = body(v)
                if r is not None:
                    return r
        else:
            r = loop_cseg(s, body, env)
            if r is not None:
                if r.kind == 'raise':
                    raise r.val
                return r
    return None


class LPath(object):
    pass


def explore_body(cseg, body, env=None, havoc=None):
    res = []
    info = {}
    s0 = C.serial
    env0 = env.rd() if env is not None else None

    def thunk():
        if env is not None:
            env.wr(env0)
        g = C.fresh(cseg.space.sort, 'g')
        info['g'] = g
        if havoc:
            havoc()
        info['env'] = env.rd() if env is not None else None
        C.assume(cseg.space.guard(g))
        if cseg.extra is not None:
            C.assume(z3.substitute(cseg.extra, (cseg.g, g)))
        i = C.choose(len(cseg.paths))
        info['i'], info['back'] = i, []
        conds, outs = inst_path(cseg, cseg.paths[i], g, C.frame, info['back'])
        for c in conds:
            C.assume_c(c)
        if conds and C.check() == z3.unsat:
            raise Infeasible()
        for o in outs:
            if isinstance(o, tuple):
                o = Items([o])
            r = run_loop((o,), body, env)
            if r is not None:
                return r
        return None

    def on_path(fr, st, v):
        p = LPath()
        p.g = info['g']
        p.conds = list(fr.pc)
        p.skolems = [s for s in fr.skolems if not s.eq(p.g)]
        p.reads = set(fr.reads)
        p.kreads = list(fr.kreads)
        p.writes = {}
        for slot, (o, key, old) in fr.writes.items():
            org = o.__dict__.get('~origin')
            if org is not None and org[1] and any(p.g.get_id() in fv(a) for a in org[1]):
                raise Unsupported('a loop mutates the elements of its collection')
            p.writes[slot] = (o, key, getter(o, key))
        if env is not None:
            for i, (a, b) in enumerate(zip(info['env'], env.rd())):
                if a is not b:
                    p.writes[(id(env), i)] = (env, i, b)
            for i in env.carried:
                p.reads.add((id(env), i))
        p.owned = (s0, C.serial)
        if st == 'stop':
            p.ctl = Exit('stop')
        elif st == 'raise':
            p.ctl = Exit('raise', v)
        else:
            p.ctl = v
        p.ci = info['i']
        p.elem = [(o.__dict__['~src'], key, element_value(getter(o, key), cseg, info, p, fr)) for o, key in fr.emut.values()]
        # templates of elements that the loop keeps apart from their collection
        for src in sources([w[2] for s, w in p.writes.items() if w[0] is not env] + [p.ctl], fr, s0):
            src.__dict__['~leak'] = True
        p.kept = {s: sources([w[2]], fr, s0) for s, w in p.writes.items() if w[0] is env}
        res.append(p)

    try:
        C.explore(thunk, on_path)
    finally:
        if env is not None:
            env.wr(env0)
    return res


def element_value(v, cseg, info, p, fr):
    """a value given to an attribute of the element of a loop, in terms of the template of the elements"""
    known = [a for a, b in info['back']]

    def conv(v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, type)):
            return v
        if isinstance(v, Lazy):
            v = norm(v)
            return conv(v)
        if isinstance(v, Sym):
            used = fv(v.t)
            if any(s.get_id() in used and not any(s.eq(a) for a in known) for s in fr.skolems):
                raise Unsupported('a drawn value is given to the elements of a collection')
            return Sym(v.k, z3.substitute(v.t, *info['back']))
        if isinstance(v, tuple):
            return tuple(conv(x) for x in v)
        if isinstance(v, Obj):
            if v.serial <= fr.serial0:
                org = v.__dict__.get('~origin')
                if org is None or not any(a.get_id() in fv(t) for t in org[1] for a in known):
                    return v
            elif v.__dict__.get('~el') is fr:
                return v.__dict__['~src']
        raise Unsupported('elements of a collection are given new objects')
    return conv(v)


def sources(vals, fr, s0):
    """templates of the elements of the loop that the values refer to"""
    out = []
    seen = set()
    st = list(vals)
    while st:
        v = st.pop()
        if v is None or isinstance(v, (bool, int, float, str, bytes, type, Sym)) or id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Obj):
            d = v.__dict__
            if d['~serial'] <= s0:
                continue
            if '~src' in d and d.get('~el') is fr:
                out.append(d['~src'])
            st.extend(x for k, x in d.items() if k not in ('~src', '~el', '~k', '~ghost', '~origin', '~lin'))
        elif isinstance(v, (tuple, list)):
            st.extend(v)
        elif isinstance(v, dict):
            st.extend(v.values())
        elif isinstance(v, Items):
            st.extend(v.vals)
        elif isinstance(v, CSeg):
            for p in v.paths:
                st.extend(p.outs)
        elif isinstance(v, SetSeg):
            st.extend(v.segs)
        elif isinstance(v, DItem):
            st.extend((v.k, v.v))
        elif isinstance(v, DDel):
            st.append(v.k)
        elif isinstance(v, Exit):
            st.append(v.val)
        elif isinstance(v, Lazy):
            if v.done:
                st.append(v.val)
        elif isinstance(v, types.FunctionType):
            st.extend(c.cell_contents for c in v.__closure__ or () if c != types.CellType())
            st.extend(v.__defaults__ or ())
        elif isinstance(v, types.MethodType):
            st.append(v.__self__)
        elif hasattr(v, '__dict__'):
            st.extend(vars(v).values())
    return out


def change_elements(cseg, paths):
    """what a loop over a whole collection does to its elements"""
    if not any(p.elem for p in paths):
        return
    if cseg.extra is not None or any(p.ctl is not None for p in paths):
        raise Unsupported('some elements of a collection are changed')
    for i in range(len(cseg.paths)):
        ps = [p for p in paths if p.ci == i]
        slots = {}
        for p in ps:
            for src, key, v in p.elem:
                slots.setdefault((id(src), key), []).append((src, key, v))
        for vs in slots.values():
            src, key, v = vs[0]
            if len(vs) != len(ps) or not all(same_out(v, x[2]) for x in vs):
                raise Unsupported('elements of a collection are changed in several ways')
            if '~leak' in src.__dict__:
                raise Unsupported('elements of a collection are changed that are known elsewhere')
            if key == '~c':
                raise Unsupported('lists in a collection are changed')
            if any(src.serial <= fr.serial0 for fr in C.frames[1:]):
                raise Unsupported('elements of an older collection are changed in a loop')
            raw_setattr(src, key, v)
            src.__dict__['~ver'] = src.__dict__.get('~ver', 0) + 1


def store_after(segs, i, v):
    """l[i] = v where i is a known distance behind whole collections; None when it is not"""
    off = z3.IntVal(0)
    for n, s in enumerate(segs):
        if isinstance(s, Items):
            d = z3.simplify(i - off)
            if z3.is_int_value(d) and 0 <= d.as_long() < len(s.vals):
                vals = list(s.vals)
                vals[d.as_long()] = v
                return segs[:n] + (Items(vals),) + segs[n + 1:]
            off = off + len(s.vals)
        elif isinstance(s, CSeg) and s.extra is None and s.space.kind == 'seq' and \
                all(len(p.outs) == 1 and isinstance(p.outs[0], Items) and len(p.outs[0].vals) == 1 for p in s.paths):
            off = off + s.space.length()
        else:
            return None
    return None


class Store(object):
    """pending store l[i] = v at the element the enclosing loop is at"""
    def __init__(self, i, v):
        self.i, self.v = i, v

    def __getattr__(self, n):
        raise Unsupported('a list is read in the iteration that stores into it')


def mapped_list(cseg, normal, slot, o, old, upto):
    """the list after a loop over it that replaces elements in place"""
    if upto is not None or not old or not isinstance(old[0], CSeg) or cseg.extra is not None:
        raise Unsupported('store into a symbolic list')
    src = old[0]
    if src.extra is not None or src.space.name != cseg.space.name or src.space.kind != 'seq' or \
            len(src.space.args) != len(cseg.space.args) or not all(a.eq(b) for a, b in zip(src.space.args, cseg.space.args)):
        raise Unsupported('store into a symbolic list')
    if any(len(sp.outs) != 1 or not isinstance(sp.outs[0], Items) or len(sp.outs[0].vals) != 1 for sp in src.paths):
        raise Unsupported('store into a symbolic list')
    g = normal[0].g
    cps = []
    for p in normal:
        def at_g(cs, v, sk):
            same_g = p.g.eq(g)
            own = (p.owned[0], C.serial)
            su = Subst([(p.g, g)], [own])
            cps.append(CPath(cs if same_g else [subcond(su, c) for c in cs], sk, (Items((v if same_g else su(v),)),), own))
        new = p.writes[slot][2][len(old):] if slot in p.writes else ()
        if new:
            if len(new) != 1 or not isinstance(new[0], Store) or not new[0].i.eq(p.g):
                raise Unsupported('store into a symbolic list')
            at_g(p.conds, new[0].v, p.skolems)
            continue
        for sp in src.paths:
            conds, outs = inst_path(src, sp, p.g)
            if len(src.paths) == 1 and not conds:
                at_g(p.conds, outs[0].vals[0], p.skolems)
            elif any(s is not None for s in sp.skolems):
                raise Unsupported('store into a symbolic list')
            else:
                at_g(list(p.conds) + list(conds), outs[0].vals[0], p.skolems)
    return (CSeg(cseg.space, g, cps, None),) + tuple(old[1:])


class Missing(object):
    def __repr__(self):
        return 'MISSING'


MISSING = Missing()


def getter(o, key):
    if isinstance(o, LoopEnv):
        return o.read(key)
    return o.__dict__.get(key, MISSING)


def setter(o, key, v):
    if isinstance(o, LoopEnv):
        o.write(key, v)
    elif key == '~c' and isinstance(o, PyColl):
        o.vc_set(v)
    else:
        raw_setattr(o, key, v)


def raw_setattr(o, key, v):
    d = o.__dict__
    old = d.get(key, MISSING)
    C.note_write(o, key, old)
    if v is MISSING:
        d.pop(key, None)
    else:
        d[key] = v

    def undo():
        if old is MISSING:
            d.pop(key, None)
        else:
            d[key] = old
    C.journal.append((o, undo))


class LoopEnv(object):
    """the local variables a loop body assigns"""
    __slots__ = ('names', 'rd', 'wr', 'carried')

    def __init__(self, names, rd, wr, carried):
        self.names = list(names)
        self.rd = rd
        self.wr = wr
        self.carried = list(carried)

    def read(self, key):
        return self.rd()[key]

    def write(self, key, v):
        vals = list(self.rd())
        vals[key] = v
        self.wr(vals)


def is_coll(o, key):
    return key == '~c' and isinstance(o, PyColl)


def is_prefix(old, new):
    return len(new) >= len(old) and all(a is b for a, b in zip(old, new))


def slots_of(paths):
    written = {}
    for p in paths:
        for slot, (o, key, new) in p.writes.items():
            written.setdefault(slot, (o, key))
    return written


def loop_cseg(cseg, body, env=None):
    C.stats['loops'] += 1
    paths = explore_body(cseg, body, env)
    if not paths:
        return None
    written = slots_of(paths)
    deps = set()
    for p in paths:
        deps |= (p.reads & set(written))
    for p in paths:
        for d, k in p.kreads:
            slot = (id(d), '~c')
            if slot in written and slot not in deps and not key_disjoint(p, k, slot, paths, d):
                deps.add(slot)
    dep = bool(deps)
    if not dep:
        for slot, (o, key) in written.items():
            if is_coll(o, key):
                old = getter(o, key)
                for p in paths:
                    if slot in p.writes and not is_prefix(old, p.writes[slot][2]):
                        dep = True
    if dep:
        if any(p.elem for p in paths):
            raise Unsupported('elements of a collection are changed in a loop that carries state')
        return fold_cseg(cseg, body, env, paths, written, deps)
    change_elements(cseg, paths)
    return apply_independent(cseg, paths, written)


def key_disjoint(p, k, slot, paths, d):
    """no other iteration writes the key k that path p reads from the dict"""
    n = len(d.__dict__['~c'])
    ok = [True]
    for p2 in paths:
        if slot not in p2.writes:
            continue
        new = p2.writes[slot][2]
        if not is_prefix(d.__dict__['~c'], new):
            return False
        for it in new[n:]:
            if not isinstance(it, DItem):
                return False

            def thunk():
                from .ops import eq_t
                a = C.fresh(p.g.sort(), 'ka')
                b = C.fresh(p.g.sort(), 'kb')
                C.assume(a != b)
                su, c1 = retarget(p, a)
                sv, c2 = retarget(p2, b)
                for c in c1 + c2:
                    C.assume_c(c)
                r = eq_t(su(k), sv(it.k))
                if r is None:
                    ok[0] = False
                elif r is True:
                    if C.check() != z3.unsat:
                        ok[0] = False
                elif r is not False:
                    if C.check(r) != z3.unsat:
                        ok[0] = False
            C.explore(thunk, lambda *a: None)
            if not ok[0]:
                return False
    return True


def retarget(p, g2):
    """formulas of path p with the generic element replaced by g2 and fresh skolems"""
    m = [(p.g, g2)]
    for s in p.skolems:
        m.append((s, C.fresh(s.sort(), 'sk')))
    su = Subst(m, [p.owned])
    return su, [subcond(su, c) for c in p.conds]


def trivial(space, p):
    """the path is taken by every element of the space"""
    gs = [c for c in space.guard(p.g).children()] + [space.guard(p.g)]
    gs = gs + [z3.simplify(c) for c in gs]
    def ok(c):
        return any(c.eq(x) for x in gs) or (z3.is_and(c) and all(ok(x) for x in c.children()))
    return all(ok(c) for c in real_conds(p))


def apply_independent(cseg, paths, written):
    space = cseg.space
    normal = [p for p in paths if p.ctl is None]
    # a stopped iteration has a failed obligation, which is already recorded
    exits = [p for p in paths if p.ctl is not None and p.ctl.kind != 'stop']
    base = {slot: getter(o, key) for slot, (o, key) in written.items()}
    opt = 0
    w = None
    if exits:
        noexit = lambda q: z3.And(*([nopath(p, p.g, q) for p in exits] + seg_facts(paths, q)))
        w = C.fresh(space.sort, 'w')
        q = C.fresh(space.sort, 'q')
        dom = lambda x: z3.And(space.guard(x), z3.substitute(cseg.extra, (cseg.g, x))) if cseg.extra is not None else space.guard(x)
        insts = []
        for p in exits:
            su, conds = retarget(p, w)
            before = forall([q], z3.Implies(z3.And(dom(q), space.before(q, w)), noexit(q)))
            insts.append((su, z3.And(*(conds + [before]))))
        none = forall([q], z3.Implies(dom(q), noexit(q)))
        if space.kind == 'seq':
            zero = z3.IntVal(0)
            if cseg.extra is None and len(paths) == 1 and trivial(space, exits[0]):
                # every iteration exits: the first one does, if there is one
                none = space.length() <= 0
                w = zero
                su, conds = retarget(exits[0], w)
                insts = [(su, z3.And(*(conds + [space.length() > 0])))]
            else:
                none = z3.And(none, z3.Implies(dom(zero), noexit(zero)))
        opt = C._decide(lambda i: none if i == 0 else insts[i - 1][1], len(exits) + 1)
    if opt == 0:
        commit(cseg, normal, written, base, None)
        return None
    p = exits[opt - 1]
    su = insts[opt - 1][0]
    commit(cseg, normal, written, base, w)
    # effects of the exiting iteration itself
    for slot, (o, key, new) in p.writes.items():
        if is_coll(o, key):
            if any(isinstance(x, Store) for x in new[len(base[slot]):]):
                raise Unsupported('store into a symbolic list')
            setter(o, key, getter(o, key) + tuple(su(s) for s in new[len(base[slot]):]))
        else:
            setter(o, key, su(new))
    return Exit(p.ctl.kind, su(p.ctl.val))


def same_out(a, b):
    """the same value without looking into objects"""
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.k == b.k and a.t.eq(b.t)
    if type(a) is not type(b):
        return False
    if isinstance(a, Items):
        return len(a.vals) == len(b.vals) and all(same_out(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_out(x, y) for x, y in zip(a, b))
    return isinstance(a, (str, int, float, bool)) and a == b


def merge_paths(cps):
    """paths of a comprehension with the same outs become one path"""
    groups = []
    for p in cps:
        if not p.skolems:
            for gr in groups:
                q = gr[0]
                if not q.skolems and len(q.outs) == len(p.outs) and all(same_out(a, b) for a, b in zip(q.outs, p.outs)):
                    gr.append(p)
                    break
            else:
                groups.append([p])
        else:
            groups.append([p])
    if len(groups) == len(cps):
        return cps
    out = []
    for gr in groups:
        if len(gr) == 1:
            out.append(gr[0])
            continue
        facts, reals = {}, []
        for p in gr:
            r = {}
            for c in p.conds:
                (facts if c.get_id() in C.facts else r)[c.get_id()] = c
            reals.append(r)
        shared = [c for i, c in reals[0].items() if all(i in r for r in reals)]
        keep = set(c.get_id() for c in shared)
        alts = [[c for i, c in r.items() if i not in keep] for r in reals]
        more = []
        if all(alts):
            d = z3.Or(*[z3.And(*a) if len(a) > 1 else a[0] for a in alts])
            d = z3.simplify(d)
            if not z3.is_true(d) and C.check(z3.Not(z3.Implies(z3.And(*(list(facts.values()) + shared)), d))) != z3.unsat:
                more = [d]
        out.append(CPath(list(facts.values()) + shared + more, (), gr[0].outs, gr[0].owned))
    return out


def commit(cseg, normal, written, base, upto):
    """apply the effects of all iterations (before `upto` if given)"""
    space = cseg.space
    for slot, (o, key) in written.items():
        old = base[slot]
        if is_coll(o, key):
            n = len(old)
            if any(isinstance(x, Store) for p in normal if slot in p.writes for x in p.writes[slot][2][n:]):
                setter(o, key, mapped_list(cseg, normal, slot, o, old, upto))
                continue
            cps = []
            g = normal[0].g if normal else None
            for p in normal:
                new = p.writes[slot][2] if slot in p.writes else old
                same_g = p.g.eq(g)
                conds = p.conds if same_g else [subcond(Subst([(p.g, g)]), c) for c in p.conds]
                outs = new[n:]
                if isinstance(o, PyDict):
                    oo = []
                    for x in outs:
                        if not isinstance(x, DItem):
                            raise Unsupported('nested dict effect in a symbolic loop')
                        for at, y in enumerate(oo):
                            if same_out(x.k, y[0]):
                                oo[at] = (y[0], x.v)
                                break
                        else:
                            oo.append((x.k, x.v))
                    outs = oo
                if not same_g:
                    su = Subst([(p.g, g)], [p.owned])
                    outs = [(su(x[0]), su(x[1])) if isinstance(x, tuple) else su(x) for x in outs]
                cps.append(CPath(conds, p.skolems, outs, p.owned))
            if any(c.outs for c in cps):
                cps = merge_paths(cps)
                extra = cseg.extra
                extra = None if extra is None else z3.substitute(extra, (cseg.g, g))
                if upto is not None:
                    b = space.before(g, upto)
                    extra = b if extra is None else z3.And(extra, b)
                setter(o, key, old + (CSeg(space, g, cps, extra),))
        else:
            assigning = [p for p in normal if slot in p.writes]
            if assigning:
                setter(o, key, last_value(cseg, assigning, slot, old, upto))


def last_value(cseg, assigning, slot, old, upto):
    space = cseg.space
    kept = [(src, src.__dict__.get('~ver', 0)) for p in assigning for src in p.kept.get(slot, ())]

    def thunk():
        for src, ver in kept:
            if src.__dict__.get('~ver', 0) != ver:
                raise Unsupported('a loop variable whose value changed later')
            src.__dict__['~leak'] = True
        w = C.fresh(space.sort, 'last')
        q = C.fresh(space.sort, 'q')

        def dom(x):
            fs = [space.guard(x)]
            if cseg.extra is not None:
                fs.append(z3.substitute(cseg.extra, (cseg.g, x)))
            if upto is not None:
                fs.append(space.before(x, upto))
            return z3.And(*fs)
        noas = lambda x: z3.And(*([nopath(p, p.g, x) for p in assigning] + seg_facts(assigning, x)))
        none = forall([q], z3.Implies(dom(q), noas(q)))
        insts = []
        for p in assigning:
            su, conds = retarget(p, w)
            later = forall([q], z3.Implies(z3.And(dom(q), space.after(q, w)), noas(q)))
            insts.append((su, z3.And(*(conds + [dom(w), later]))))
        i = C._decide(lambda i: none if i == 0 else insts[i - 1][1], len(assigning) + 1)
        if i == 0:
            if old is MISSING:
                raise Unsupported('variable that may be unbound after a loop')
            return old
        p = assigning[i - 1]
        return insts[i - 1][0](p.writes[slot][2])
    return Lazy(thunk)


# ---------------------------------------------------------------------------
# dependent iterations: folds

class FoldSig(object):
    pass


def havoc_value(v, name):
    """a fresh value of the same shape"""
    if isinstance(v, Lazy):
        v = norm(v)
    if isinstance(v, Sym):
        return Sym(v.k, z3.Const(name, SORTS[v.k]))
    if v is None:
        return Sym('val', z3.Const(name, Val))
    for t, k in ((bool, 'bool'), (int, 'int'), (float, 'real'), (str, 'str')):
        if isinstance(v, t):
            return Sym(k, z3.Const(name, SORTS[k]))
    raise Unsupported('cannot generalise loop state of type %s' % type(v).__name__)


ACC = {'bool': (Val.is_vb, Val.b), 'int': (Val.is_vi, Val.i), 'real': (Val.is_vr, Val.r), 'str': (Val.is_vs, Val.s)}


def typed(f, g, kind):
    """element f(g) of a loop state, known to be of one kind: conditions and value"""
    if kind is None:
        return (), Sym('val', f(g))
    c = ACC[kind][0](f(g))
    C.facts[c.get_id()] = c
    return (c,), Sym(kind, ACC[kind][1](f(g)))


def havoc_segs(name, kind=None):
    sp = Space('seq', name, ())
    g = z3.Int(name + '$g')
    f = z3.Function(name + '.el', z3.IntSort(), Val)
    C.fact(sp.length() >= 0)
    conds, v = typed(f, g, kind)
    return (CSeg(sp, g, [CPath(conds, (), (Items((v,)),))]),)


def havoc_layers(name, kind=None):
    sp = Space('map', name, ())
    g = z3.String(name + '$k')
    f = z3.Function(name + '.el', z3.StringSort(), Val)
    conds, v = typed(f, g, kind)
    return (CSeg(sp, g, [CPath(conds, (), ((Sym('str', g), v),))]),)


def elem_kind(contents):
    """the kind all elements of the contents have, None when mixed, '' when there are none"""
    from .ops import kind
    ks = set()

    def val(v):
        if isinstance(v, Lazy):
            v = v.val if v.done else None
        k = kind(v) if v is not None else 'none'
        ks.add(k if k in ACC else None)
    for content in contents:
        for s in content:
            if isinstance(s, Items):
                for v in s.vals:
                    val(v)
            elif isinstance(s, DItem):
                val(s.v)
            elif isinstance(s, CSeg):
                for p in s.paths:
                    for o in p.outs:
                        if isinstance(o, tuple):
                            val(o[1])
                        else:
                            k = elem_kind([(o,)])
                            if k != '':
                                ks.add(k)
    if not ks:
        return ''
    return ks.pop() if len(ks) == 1 else None


def scalar_only(content):
    """a havocked collection stands for scalars only"""
    def sc(v):
        return v is None or isinstance(v, (bool, int, float, str)) or (isinstance(v, Sym) and v.k not in ('opq', 'bytes'))

    def key(k):
        return isinstance(k, str) or (isinstance(k, Sym) and k.k == 'str')
    for s in content:
        if isinstance(s, Items):
            if not all(sc(v) for v in s.vals):
                return False
        elif isinstance(s, DItem):
            if not key(s.k) or not sc(s.v):
                return False
        elif isinstance(s, DDel):
            return False
        else:
            for p in s.paths:
                for o in p.outs:
                    if isinstance(o, tuple):
                        if not key(o[0]) or not sc(o[1]):
                            return False
                    elif not scalar_only((o,)):
                        return False
    return True


def fold_cseg(cseg, body, env, paths, written, deps):
    C.stats['folds'] += 1
    uid = C.uid()
    acc = {}        # slot -> (o,key,init)
    widened = set()
    ekind = {}
    for _ in range(8):
        for slot in list(written):
            o, key = written[slot]
            if slot not in acc and (slot in deps or is_coll(o, key)):
                acc[slot] = (o, key, getter(o, key))
        names = {}
        rank = {s: i for i, s in enumerate(written)}
        for n, slot in enumerate(sorted(acc, key=lambda s: rank[s])):
            names[slot] = 'acc%d!%s' % (n, uid)
        hv = {}

        def havoc():
            for slot, (o, key, init) in acc.items():
                if is_coll(o, key):
                    if not scalar_only(init):
                        raise Unsupported('a loop whose state holds objects')
                    v = (havoc_layers if isinstance(o, PyDict) else havoc_segs)(names[slot], ekind.get(slot))
                elif slot in widened:
                    v = Sym('val', z3.Const(names[slot], Val))
                else:
                    v = havoc_value(init, names[slot])
                setter(o, key, v)
                hv[slot] = v
            # the havoc itself is not a write of the body
            fr = C.frame
            fr.writes.clear()
            fr.reads.clear()
            del fr.kreads[:]
        paths = explore_body(cseg, body, env, havoc)
        again = False
        for slot, ok in slots_of(paths).items():
            if slot not in written:
                written[slot] = ok
                again = True
        for p in paths:
            rd = set(p.reads) | set((id(d), '~c') for d, k in p.kreads)
            nd = (rd & set(written)) - set(acc)
            if nd:
                deps |= nd
                again = True
            for slot in acc:
                o, key, init = acc[slot]
                if is_coll(o, key):
                    continue
                if slot not in p.writes:
                    continue
                new = p.writes[slot][2]
                if slot in widened:
                    if isinstance(new, (Lazy, Obj, tuple)):
                        raise Unsupported('object-valued loop state')
                    continue
                if isinstance(new, (Lazy, Obj, tuple)):
                    raise Unsupported('object-valued loop state')
                nk = new.k if isinstance(new, Sym) else (lift(new).k if new is not None else 'val')
                if nk != hv[slot].k:
                    widened.add(slot)
                    again = True
        for slot in acc:
            o, key, init = acc[slot]
            if not is_coll(o, key):
                continue
            news = [p.writes[slot][2] for p in paths if slot in p.writes]
            if not all(scalar_only(n) for n in news):
                raise Unsupported('a loop whose state holds objects')
            # all elements of one kind: part of the inferred invariant
            fresh = [tuple(s for s in n if not (isinstance(s, CSeg) and s.space.name == names[slot])) for n in news]
            k = elem_kind([init] + fresh)
            if k == '':
                continue
            if slot not in ekind:
                ekind[slot] = k
                again = again or k is not None
            elif ekind[slot] is not None and k != ekind[slot]:
                ekind[slot] = None
                again = True
        if not again:
            break
    else:
        raise Unsupported('loop state does not stabilise')
    if any(p.ctl is not None and p.ctl.kind != 'stop' for p in paths):
        raise Unsupported('early exit from a loop with dependent iterations')
    sig = FoldSig()
    sig.cseg = cseg
    sig.order = sorted(acc, key=lambda s: names[s])
    sig.kinds = ['dict' if isinstance(acc[s][0], PyDict) else 'list' if is_coll(acc[s][0], acc[s][1]) else hv[s].k for s in sig.order]
    sig.init = [acc[s][2] for s in sig.order]
    sig.names = [names[s] for s in sig.order]
    sig.paths = paths
    sig.steps = [[p.writes[s][2] if s in p.writes else hv[s] for s in sig.order] for p in paths]
    outs = None
    for fr in reversed(C.frames):
        for old in fr.memo.get('folds', []):
            perm = congruent(old, sig)
            if perm is not None:
                outs = [old.outs[perm[i]] for i in range(len(perm))]
                break
        if outs:
            break
    if outs is None:
        outs = []
        for i, s in enumerate(sig.order):
            o, key, init = acc[s]
            nm = 'fold%d!%s' % (i, uid)
            if is_coll(o, key):
                outs.append((havoc_layers if isinstance(o, PyDict) else havoc_segs)(nm, ekind.get(s)))
            else:
                outs.append(Sym(hv[s].k, z3.Const(nm, SORTS[hv[s].k])))
        sig.outs = outs
        C.frame.memo.setdefault('folds', []).append(sig)
    for i, s in enumerate(sig.order):
        o, key, init = acc[s]
        setter(o, key, outs[i])
    for slot in written:
        if slot not in acc:
            o, key = written[slot]
            setter(o, key, Lazy(_poison))
    return None


def _poison():
    raise Unsupported('value of a loop temporary used after a dependent loop')


def congruent(a, b):
    """do folds a and b compute the same state?  returns permutation of b->a"""
    import itertools
    if not a.cseg.space.same(b.cseg.space) or sorted(a.kinds) != sorted(b.kinds):
        return None
    n = len(a.order)
    for perm in itertools.permutations(range(n)):
        if any(a.kinds[perm[i]] != b.kinds[i] for i in range(n)):
            continue
        if not all(prove_same_content(a.kinds[perm[i]], a.init[perm[i]], b.init[i]) for i in range(n)):
            continue
        if steps_equal(a, b, perm):
            return perm
    return None


def prove_same_content(kind, x, y):
    from .same import same_content
    ok = [True]

    def thunk():
        if kind in ('list', 'dict'):
            return same_content(kind, x, y)
        from .same import same
        return same(x, y)

    def on_path(fr, st, v):
        if st != 'ok' or v is not True:
            if C.check() != z3.unsat:
                ok[0] = False
    from .same import NotAligned
    try:
        C.explore(thunk, on_path)
    except NotAligned:
        return False        # only asked in order to find equal ones
    return ok[0]


def steps_equal(a, b, perm):
    from .same import same_content, same
    ok = [True]

    def thunk():
        g = C.fresh(a.cseg.space.sort, 'g')
        i = C.choose(len(a.paths))
        j = C.choose(len(b.paths))
        pa, pb = a.paths[i], b.paths[j]
        sa = Subst([(pa.g, g)] + [(s, C.fresh(s.sort(), 'sk')) for s in pa.skolems], [pa.owned])
        # accumulators of b become those of a
        m = [(pb.g, g)] + [(s, C.fresh(s.sort(), 'sk')) for s in pb.skolems]
        sb = RenameAcc(m, [pb.owned], {b.names[k]: (a.names[perm[k]], a.kinds[perm[k]]) for k in range(len(perm))})
        for c in pa.conds:
            C.assume(sa.term(c))
        for c in pb.conds:
            C.assume(sb.term(c))
        if C.check() == z3.unsat:
            raise Infeasible()
        for k in range(len(perm)):
            x = a.steps[i][perm[k]]
            y = b.steps[j][k]
            kd = a.kinds[perm[k]]
            if kd in ('list', 'dict'):
                x = tuple(sa(s) for s in x)
                y = tuple(sb(s) for s in y)
                if not same_content(kd, x, y):
                    return False
            else:
                if not same(sa(x), sb(y)):
                    return False
        return True

    def on_path(fr, st, v):
        if st != 'ok' or v is not True:
            if C.check() != z3.unsat:
                ok[0] = False
    C.explore(thunk, on_path)
    return ok[0]


class RenameAcc(Subst):
    def __init__(self, m, owned, names):
        Subst.__init__(self, m, owned)
        self.names = names
        for old, (new, kind) in names.items():
            if kind == 'list':
                self.m.append((z3.Int(old + '$g'), z3.Int(new + '$g')))
            elif kind == 'dict':
                self.m.append((z3.String(old + '$k'), z3.String(new + '$k')))
            else:
                self.m.append((z3.Const(old, SORTS[kind]), z3.Const(new, SORTS[kind])))

    def fun(self, t):
        for old, (new, kind) in self.names.items():
            if kind == 'list':
                fo, fn = z3.Function(old + '.el', z3.IntSort(), Val), z3.Function(new + '.el', z3.IntSort(), Val)
                t = z3.substitute_funs(t, (fo, fn(z3.Var(0, z3.IntSort()))))
                lo, ln = z3.Function(old + '.len', z3.IntSort()), z3.Function(new + '.len', z3.IntSort())
                t = z3.substitute(t, (lo(), ln()))
            elif kind == 'dict':
                fo, fn = z3.Function(old + '.el', z3.StringSort(), Val), z3.Function(new + '.el', z3.StringSort(), Val)
                t = z3.substitute_funs(t, (fo, fn(z3.Var(0, z3.StringSort()))))
                do, dn = z3.Function(old + '.dom', z3.StringSort(), z3.BoolSort()), z3.Function(new + '.dom', z3.StringSort(), z3.BoolSort())
                t = z3.substitute_funs(t, (do, dn(z3.Var(0, z3.StringSort()))))
        return t

    def term(self, t):
        return self.fun(z3.substitute(t, *self.m) if self.m else t)

    def cseg(self, s):
        r = Subst.cseg(self, s)
        n = r.space.name
        if n in self.names:
            new, kind = self.names[n]
            r = CSeg(Space(r.space.kind, new, r.space.args, r.space.order),
                     z3.substitute(r.g, *self.m), r.paths, r.extra)
        return r


# ---------------------------------------------------------------------------
# queries on segments

def some_element(segs, pred):
    """fork: (True) some element satisfies pred (witness introduced),
    (False) none does.  pred(value) -> z3 Bool / bool, must not fork"""
    def body(v):
        from .ops import truth
        if truth(pred(v)):
            return Exit('break')
        return None
    r = run_loop(segs, body)
    return r is not None


def nonempty(segs):
    if any(isinstance(s, Items) and s.vals for s in segs):
        return True
    from .rtl import simple
    for s in flat(segs):
        if isinstance(s, Items):
            if s.vals:
                return True
        elif simple(s):
            C.fact(s.space.length() >= 0)
            if C.branch(s.space.length() > 0):
                return True
        elif run_loop((s,), lambda v: Exit('break')) is not None:
            return True
    return False
