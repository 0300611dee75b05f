"""Structural, type-strict equality of program values, proved on the current path.

same(x, y) returns True only when it is proved (after forking where needed);
NotAligned is raised when two unbounded collections cannot be compared
element by element (an incompleteness of the verifier, not a refutation)."""
import z3
from .core import C, Sym, Lazy, Obj, Val, Unsupported, Infeasible, norm, force, lift, box, unbox_sym, valid
from .ops import eq_t, kind, truth, B
from .coll import same_order, PyList, PyDict, PySet, CSeg, Items, DItem, DDel, inst_path, Exit, run_loop


class NotAligned(Unsupported):
    pass


def strip(v):
    while isinstance(v, Lazy):
        v = force(v)
    if isinstance(v, Sym) and v.k == 'val':
        v = unbox_sym(v)
    return v


def same(x, y, depth=0):
    """fork as needed; python bool"""
    if depth > 40:
        raise Unsupported('same() too deep')
    x, y = strip(x), strip(y)
    if x is y:
        return True
    sx, sy = isinstance(x, Sym), isinstance(y, Sym)
    if sx and sy and x.k == y.k:
        return truth(B(x.t == y.t))
    if (sx and x.k == 'val') or (sy and y.k == 'val'):
        if isinstance(x, Obj) or isinstance(y, Obj) or isinstance(x, tuple) or isinstance(y, tuple):
            pass
        else:
            return truth(B(box(x) == box(y)))
    if sx or sy:
        kx, ky = kind(x), kind(y)
        if kx == ky and kx in ('bool', 'int', 'real', 'str'):
            return truth(B(lift(x).t == lift(y).t))
        if kx in ('val', 'opq') or ky in ('val', 'opq'):
            return truth(B(box(x) == box(y)))
        return False
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(a, b, depth + 1) for a, b in zip(x, y))
    if isinstance(x, PySet) and isinstance(y, PySet):
        return same_content('dict', x.vc_c, y.vc_c, depth)
    if isinstance(x, PyDict) and isinstance(y, PyDict) and not isinstance(x, PySet) and not isinstance(y, PySet):
        if type(x) is not type(y):
            return False
        return same_content('dict', x.vc_c, y.vc_c, depth) and same_attrs(x, y, depth)
    if isinstance(x, PyList) and isinstance(y, PyList):
        if type(x) is not type(y):
            return False
        return same_content('list', x.vc_c, y.vc_c, depth) and same_attrs(x, y, depth)
    if isinstance(x, Obj) and isinstance(y, Obj):
        from .rtl import same_origin
        return truth(same_origin(x, y))
    if type(x) is not type(y):
        return False
    if isinstance(x, Obj) or isinstance(y, Obj):
        return False
    return bool(x == y)


def same_attrs(x, y, depth):
    a = {k: v for k, v in x.__dict__.items() if not k.startswith('~')}
    b = {k: v for k, v in y.__dict__.items() if not k.startswith('~')}
    return set(a) == set(b) and all(same(a[k], b[k], depth + 1) for k in a)


def flat(segs):
    out = []
    for s in segs:
        if isinstance(s, Items):
            if not s.vals:
                continue
            if out and isinstance(out[-1], list):
                out[-1].extend(s.vals)
            else:
                out.append(list(s.vals))
        else:
            out.append(s)
    return out


def seg_empty(s):
    return run_loop((s,), lambda v: Exit('break')) is None


def same_segs(xs, ys, depth):
    xs, ys = flat(xs), flat(ys)
    while xs and ys:
        a, b = xs[0], ys[0]
        if isinstance(a, list) and isinstance(b, list):
            n = min(len(a), len(b))
            for u, v in zip(a[:n], b[:n]):
                if not same(u, v, depth + 1):
                    return False
            xs[0:1] = [a[n:]] if len(a) > n else []
            ys[0:1] = [b[n:]] if len(b) > n else []
        elif isinstance(a, list) or isinstance(b, list):
            s = b if isinstance(a, list) else a
            if seg_empty(s):
                (ys if isinstance(a, list) else xs).pop(0)
                continue
            raise NotAligned('a list of known length against a comprehension')
        else:
            if a is b or same_cseg('list', a, b, depth):
                xs.pop(0)
                ys.pop(0)
                continue
            return False
    for s in xs + ys:
        if isinstance(s, list):
            return False
        if not seg_empty(s):
            return False
    return True


def space_match(a, b):
    if a.space.same(b.space):
        return True
    if same_order(a.space, b.space) and a.space.kind == b.space.kind and a.space.name == b.space.name and len(a.space.args) == len(b.space.args):
        if all(x.sort() == y.sort() for x, y in zip(a.space.args, b.space.args)):
            return valid(z3.And(*[x == y for x, y in zip(a.space.args, b.space.args)]))
    return False


def same_cseg(kd, a, b, depth):
    if not space_match(a, b):
        # both may be empty
        if seg_empty(a):
            if seg_empty(b):
                return True
        raise NotAligned('comprehensions over different collections')
    ok = [True, None]

    def outs_of(s, g):
        if s.extra is not None:
            if not C.branch(z3.substitute(s.extra, (s.g, g))):
                return []
        i = C.choose(len(s.paths))
        conds, outs = inst_path(s, s.paths[i], g)
        for c in conds:
            C.assume_c(c)
        if conds and C.check() == z3.unsat:
            raise Infeasible()
        return outs

    def thunk():
        g = C.fresh(a.space.sort, 'sg')
        C.assume(a.space.guard(g))
        oa = outs_of(a, g)
        ob = outs_of(b, g)
        if kd == 'list':
            return same_segs(oa, ob, depth + 1)
        return same_dict([DItem(*o) for o in oa], [DItem(*o) for o in ob], depth + 1)

    def on_path(fr, st, v):
        if st == 'raise':
            raise v
        if st != 'ok' or v is not True:
            if C.check() != z3.unsat:
                ok[0] = False
    C.explore(thunk, on_path)
    return ok[0]


def conc(layers):
    from .rtl import ishash
    out = {}
    for l in layers:
        if isinstance(l, DItem) and ishash(l.k):
            out[(type(l.k), l.k)] = l.v
        elif isinstance(l, DDel) and ishash(l.k):
            out.pop((type(l.k), l.k), None)
        else:
            return None
    return out


def same_dict(xs, ys, depth):
    from . import rtl
    xs, ys = tuple(xs), tuple(ys)
    a, b = conc(xs), conc(ys)
    if a is not None and b is not None:
        return set(a) == set(b) and all(same(a[k], b[k], depth + 1) for k in a)
    if not xs or not ys:
        return not rtl.dict_nonempty(rtl.mklayers(xs or ys))
    if len(xs) == len(ys) and all(lay_eq(p, q) for p, q in zip(xs, ys)):
        return True
    if len(xs) == 1 and len(ys) == 1 and isinstance(xs[0], CSeg) and isinstance(ys[0], CSeg) and \
            rtl.identity_keys(xs[0]) and rtl.identity_keys(ys[0]) and space_match(xs[0], ys[0]):
        return same_cseg('dict', xs[0], ys[0], depth)

    # every key of either side is looked up in both
    def side(ps, qs):
        def body(k):
            rx = rtl.lookup(ps, k)
            ry = rtl.lookup(qs, k)
            if rx == 'del':
                rx = None
            if ry == 'del':
                ry = None
            if rx is None and ry is None:
                return None
            if rx is None or ry is None:
                return Exit('break')
            if not same(rx[1], ry[1], depth + 1):
                return Exit('break')
            return None
        for l in ps:
            if isinstance(l, DDel):
                continue
            if isinstance(l, DItem):
                if body(l.k) is not None:
                    return False
            else:
                if run_loop((rtl.conv_entries(l, 'k'),), body) is not None:
                    return False
        return True
    return side(xs, ys) and side(ys, xs)


def lay_eq(p, q):
    if p is q:
        return True
    if isinstance(p, DItem) and isinstance(q, DItem):
        return p.k is q.k and p.v is q.v
    return False


def same_content(kd, x, y, depth=0):
    if kd == 'list':
        return same_segs(x, y, depth)
    if kd == 'dict':
        return same_dict(x, y, depth)
    return same(x, y, depth)
