"""Operators on symbolic values (python semantics)."""
import z3
from .core import (C, Sym, Lazy, Obj, Val, Unsupported, Infeasible, OPS, prog, box, norm, force, lift,
                   concrete, zstr, zreal, OpqS, unbox_sym, is_kind)

NUM = ('bool', 'int', 'real')
PYT = {'bool': bool, 'int': int, 'real': float, 'str': str}


def issym(v):
    return isinstance(v, (Sym, Lazy))


def kind(v):
    """kind of a normalised value"""
    if isinstance(v, Sym):
        return v.k
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'real'
    if isinstance(v, str):
        return 'str'
    return 'obj'


def mk(k, t):
    return concrete(Sym(k, t))


def B(t):
    return concrete(Sym('bool', t))


def zb(v):
    """python bool or Sym bool -> z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    v = norm(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    assert v.k == 'bool'
    return v.t


def truth_t(v):
    """truth of a value without forking when possible: python bool or z3 Bool"""
    while isinstance(v, Lazy):
        v = force(v)
    if isinstance(v, Sym):
        if v.k == 'val':
            u = unbox_sym(v)
            if not (isinstance(u, Sym) and u.k == 'val'):
                return truth_t(u)
            t = v.t
            return z3.And(z3.Not(Val.is_none(t)),
                          z3.Implies(Val.is_vb(t), Val.b(t)),
                          z3.Implies(Val.is_vi(t), Val.i(t) != 0),
                          z3.Implies(Val.is_vr(t), Val.r(t) != 0),
                          z3.Implies(Val.is_vs(t), z3.Length(Val.s(t)) != 0))
        if v.k == 'bool':
            return v.t
        if v.k in ('int', 'real'):
            return v.t != 0
        if v.k == 'str':
            return v.t != z3.StringVal('')
        if v.k == 'bytes':
            return v.t != z3.StringVal('')
        return True
    if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
        return bool(v)
    return None


def truth(v):
    t = truth_t(v)
    if t is None:
        while isinstance(v, Lazy):
            v = force(v)
        return bool(v)
    return C.branch(t)


def num(v):
    """term and kind of a numeric normalised value"""
    if isinstance(v, Sym):
        if v.k == 'bool':
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), 'int'
        return v.t, v.k
    if isinstance(v, bool):
        return z3.IntVal(int(v)), 'int'
    if isinstance(v, int):
        return z3.IntVal(v), 'int'
    return lift(v).t, 'real'


def num2(a, b):
    ta, ka = num(a)
    tb, kb = num(b)
    if ka == kb:
        return ta, tb, ka
    if ka == 'int':
        ta = z3.ToReal(ta)
    if kb == 'int':
        tb = z3.ToReal(tb)
    return ta, tb, 'real'


def isnum_t(t):
    return z3.Or(Val.is_vb(t), Val.is_vi(t), Val.is_vr(t))


def numval_t(t):
    return z3.If(Val.is_vb(t), z3.If(Val.b(t), z3.RealVal(1), z3.RealVal(0)),
                 z3.If(Val.is_vi(t), z3.ToReal(Val.i(t)), Val.r(t)))


def eq_t(a, b):
    """python == of two values -> python bool or z3 Bool; no forks on open kinds.
    returns None when a user-level __eq__ is needed"""
    while isinstance(a, Lazy):
        a = force(a)
    while isinstance(b, Lazy):
        b = force(b)
    if a is b and not isinstance(a, float):
        return True
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if sa and a.k == 'val':
        a = unbox_sym(a)
        sa = isinstance(a, Sym)
    if sb and b.k == 'val':
        b = unbox_sym(b)
        sb = isinstance(b, Sym)
    if not sa and not sb:
        ka, kb = kind(a), kind(b)
        if ka != 'obj' and kb != 'obj':
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = []
            for x, y in zip(a, b):
                r = eq_t(x, y)
                if r is None:
                    return None
                if r is False:
                    return False
                if r is not True:
                    rs.append(r)
            return True if not rs else z3.And(*rs)
        if ka != 'obj' or kb != 'obj':
            o = a if ka == 'obj' else b
            if isinstance(o, Obj) and type(o).__eq__ is not object.__eq__:
                return None
            return False
        return None
    va = sa and a.k == 'val'
    vb = sb and b.k == 'val'
    if va or vb:
        if not va:
            a, b = b, a
            va, vb = vb, va
        t = a.t
        if vb:
            return z3.Or(t == b.t, z3.And(isnum_t(t), isnum_t(b.t), numval_t(t) == numval_t(b.t)))
        kb = kind(b)
        if kb == 'none':
            return Val.is_none(t)
        if kb in NUM:
            tb, k2 = num(b)
            return z3.And(isnum_t(t), numval_t(t) == (z3.ToReal(tb) if k2 == 'int' else tb))
        if kb == 'str':
            return t == Val.vs(lift(b).t)
        if kb == 'opq':
            return t == Val.vo(b.t)
        if isinstance(b, Obj) and type(b).__eq__ is not object.__eq__:
            return None
        return t == box(b)
    ka, kb = kind(a), kind(b)
    if ka in NUM and kb in NUM:
        ta, tb, _ = num2(a, b)
        return ta == tb
    if ka == 'str' and kb == 'str':
        from . import strs
        ta, tb = lift(a).t, lift(b).t
        for x, y in ((ta, tb), (tb, ta)):
            if z3.is_string_value(y) and (strs.other_char(x, y) or strs.excluded(x, strs.pystr(y))):
                return False
        return ta == tb
    if ka == 'bytes' and kb == 'bytes':
        from . import strs
        return strs.by(a) == strs.by(b)
    if ka == 'opq' or kb == 'opq':
        if ka in NUM + ('none', 'str') or kb in NUM + ('none', 'str'):
            return False
        return box(a) == box(b)
    if ka == 'obj' or kb == 'obj':
        o = a if ka == 'obj' else b
        if isinstance(o, Obj) and type(o).__eq__ is not object.__eq__:
            return None
        return False
    return False


def eq(a, b):
    """python == -> bool / Sym bool"""
    r = eq_t(a, b)
    if r is None:
        while isinstance(a, Lazy):
            a = force(a)
        while isinstance(b, Lazy):
            b = force(b)
        if isinstance(a, Sym):
            a = norm(a)
        if isinstance(b, Sym):
            b = norm(b)
        if isinstance(a, Obj):
            return type(a).__eq__(a, b) if type(a).__eq__ is not object.__eq__ else eq_rev(b, a)
        return eq_rev(b, a)
    if isinstance(r, bool):
        return r
    return B(r)


def eq_rev(b, a):
    if isinstance(b, Obj) and type(b).__eq__ is not object.__eq__:
        r = type(b).__eq__(b, a)
        return False if r is NotImplemented else r
    return b is a


def not_(v):
    t = truth_t(v)
    if t is None:
        return not truth(v)
    if isinstance(t, bool):
        return not t
    return B(z3.Not(t))


def compare(op, a, b):
    a, b = norm(a), norm(b)
    ka, kb = kind(a), kind(b)
    if ka in NUM and kb in NUM:
        ta, tb, _ = num2(a, b)
        return B({'<': ta < tb, '<=': ta <= tb, '>': ta > tb, '>=': ta >= tb}[op])
    if ka == 'str' and kb == 'str':
        ta, tb = lift(a).t, lift(b).t
        return B({'<': lambda: ta < tb, '<=': lambda: ta <= tb, '>': lambda: tb < ta, '>=': lambda: tb <= ta}[op]())
    if ka == 'obj' and kb == 'obj' and not isinstance(a, Sym) and not isinstance(b, Sym):
        import operator
        return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op](a, b)
    if ka == 'opq' or kb == 'opq' or ka == 'obj' or kb == 'obj':
        o = a if ka == 'obj' else b
        if isinstance(o, Obj):
            m = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
            if o is a and hasattr(type(o), m) and getattr(type(o), m) is not getattr(object, m):
                return getattr(o, m)(b)
        if ka == 'opq' or kb == 'opq':
            f = z3.Function('py.lt', Val, Val, z3.BoolSort())
            x, y = box(a), box(b)
            return B({'<': f(x, y), '>': f(y, x), '<=': z3.Not(f(y, x)), '>=': z3.Not(f(x, y))}[op])
    raise prog(TypeError("'%s' not supported between instances" % op))


def floordiv_t(ta, tb, k):
    if k == 'int':
        return z3.If(tb > 0, ta / tb, (-ta) / (-tb))
    return z3.ToInt(ta / tb)


def mod_t(ta, tb):
    if z3.is_int_value(tb) and tb.as_long() > 0:
        return ta % tb
    return z3.If(tb > 0, ta % tb, ta - tb * ((-ta) / (-tb)))


def int_of(t):
    '''the integer term a real term is the image of'''
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    return None


def floor_t(t):
    """the largest integer not above a real term"""
    t = z3.simplify(t)
    i = int_of(t)
    if i is not None:
        return i
    if z3.is_rational_value(t):
        return z3.simplify(z3.ToInt(t))
    n = FLOOR(t)
    C.floors = True
    C.fact(z3.And(z3.ToReal(n) <= t, t < z3.ToReal(n) + 1))
    for w in C.witnesses:
        C.fact(z3.Or(z3.And(w <= n, z3.ToReal(w) <= z3.ToReal(n)), z3.And(w >= n + 1, z3.ToReal(w) > t, z3.ToReal(w) >= z3.ToReal(n) + 1)))
    return n


FLOOR = z3.Function('real.floor', z3.RealSort(), z3.IntSort())
RMUL = z3.Function('real.product', z3.RealSort(), z3.RealSort(), z3.RealSort())


def arith(op, a, b):
    a, b = norm(a), norm(b)
    ka, kb = kind(a), kind(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        import operator as o
        f = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow,
             '<<': o.lshift, '>>': o.rshift, '|': o.or_, '&': o.and_, '^': o.xor}[op]
        try:
            return f(a, b)
        except Exception as e:
            if ka != 'obj' and kb != 'obj':
                prog(e)
            elif isinstance(e, TypeError) and e.__traceback__.tb_next is None:
                prog(e)
            raise
    if op == '%' and ka == 'str':
        from . import strs
        return strs.percent(a, b)
    if ka in NUM and kb in NUM:
        ta, tb, k = num2(a, b)
        if op == '+':
            return mk(k, ta + tb)
        if op == '-':
            return mk(k, ta - tb)
        if op == '*':
            if k == 'real' and not (z3.is_rational_value(z3.simplify(ta)) or z3.is_rational_value(z3.simplify(tb))):
                # products of unknown reals are left uninterpreted: nonlinear arithmetic is out of reach
                x, y = sorted((z3.simplify(ta), z3.simplify(tb)), key=lambda t: t.get_id())
                return mk(k, RMUL(x, y))
            return mk(k, ta * tb)
        if op in ('/', '//', '%'):
            if C.branch(tb == 0):
                raise prog(ZeroDivisionError('division by zero'))
            if op == '/':
                if k == 'int':
                    ta, tb = z3.ToReal(ta), z3.ToReal(tb)
                return mk('real', ta / tb)
            if k == 'real':
                ia, ib = int_of(ta), int_of(tb)
                if ia is not None and ib is not None:
                    return mk('real', z3.ToReal(mod_t(ia, ib) if op == '%' else floordiv_t(ia, ib, 'int')))
            q = floordiv_t(ta, tb, k)
            if op == '//':
                return mk(k, q if k == 'int' else z3.ToReal(q))
            if k == 'int':
                return mk('int', mod_t(ta, tb))
            return mk('real', ta - tb * z3.ToReal(q))
        if op == '**' and isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8:
            r = z3.IntVal(1) if k == 'int' else z3.RealVal(1)
            for _ in range(b):
                r = r * ta
            return mk(k, r)
        if op == '&' and ka == 'bool' and kb == 'bool':
            return B(z3.And(lift(a).t, lift(b).t))
        if op == '|' and ka == 'bool' and kb == 'bool':
            return B(z3.Or(lift(a).t, lift(b).t))
        if op == '<<' and isinstance(b, int):
            return mk('int', ta * (1 << b))
        if op == '**':
            raise Unsupported('symbolic exponent')
        raise Unsupported('operator %s on symbolic numbers' % op)
    if op == '+' and ka == 'str' and kb == 'str':
        return mk('str', z3.Concat(lift(a).t, lift(b).t))
    if op == '*' and 'str' in (ka, kb) and ('int' in (ka, kb) or 'bool' in (ka, kb)):
        from . import strs
        return strs.repeat(a, b) if ka == 'str' else strs.repeat(b, a)
    if 'bytes' in (ka, kb):
        from . import strs
        return strs.bytes_arith(op, a, b)
    o = a if ka == 'obj' else (b if kb == 'obj' else None)
    if isinstance(o, Obj):
        nm = {'+': 'add', '-': 'sub', '*': 'mul', '%': 'mod', '|': 'or', '&': 'and'}.get(op)
        if nm and o is a and hasattr(type(o), '__%s__' % nm):
            return getattr(o, '__%s__' % nm)(b)
        if nm and o is b and hasattr(type(o), '__r%s__' % nm):
            return getattr(o, '__r%s__' % nm)(a)
    if ka == 'opq' or kb == 'opq':
        raise Unsupported('arithmetic on an opaque value')
    raise prog(TypeError('unsupported operand type(s) for %s' % op))


# -- dunder forwarding --------------------------------------------------------
def _install():
    OPS.op_bool = lambda s: truth(s)
    OPS.op_eq = lambda a, b: eq(a, b)
    OPS.op_ne = lambda a, b: not_(eq(a, b))
    for n, o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
        setattr(OPS, 'op_' + n, lambda a, b, o=o: compare(o, a, b))
    for n, o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('mod', '%'), ('truediv', '/'), ('floordiv', '//'), ('pow', '**'),
                 ('lshift', '<<'), ('rshift', '>>'), ('or', '|'), ('and', '&'), ('xor', '^')):
        setattr(OPS, 'op_' + n, lambda a, b, o=o: arith(o, a, b))
        setattr(OPS, 'op_r' + n, lambda a, b, o=o: arith(o, b, a))

    def neg(a):
        a = norm(a)
        if isinstance(a, Sym) and a.k in NUM:
            t, k = num(a)
            return mk(k, -t)
        if isinstance(a, (int, float)):
            return -a
        raise prog(TypeError('bad operand type for unary -'))

    def abs_(a):
        a = norm(a)
        if isinstance(a, Sym) and a.k in NUM:
            t, k = num(a)
            return mk(k, z3.If(t >= 0, t, -t))
        if isinstance(a, (int, float)):
            return abs(a)
        raise prog(TypeError('bad operand type for abs()'))
    OPS.op_neg = neg
    OPS.op_pos = lambda a: a
    OPS.op_abs = abs_

    def inv(a):
        a = norm(a)
        t, k = num(a)
        return mk('int', -t - 1)
    OPS.op_invert = inv

    def native(name):
        def f(a, *r):
            a = norm(a)
            if isinstance(a, Sym):
                raise Unsupported('native %s of a symbolic value' % name)
            return getattr(a, '__%s__' % name)(*r)
        return f
    for n in ('int', 'float', 'index', 'round', 'divmod', 'delitem', 'setitem', 'enter', 'exit'):
        setattr(OPS, 'op_' + n, native(n))

    def call(a, *r, **k):
        a = norm(a)
        if isinstance(a, Sym):
            raise prog(TypeError('symbolic value is not callable'))
        return a(*r, **k)
    OPS.op_call = call

    def len_(a):
        a = norm(a)
        from . import rtl
        n = rtl.b_len(a)
        if isinstance(n, Sym):
            raise Unsupported('native len() of a symbolic collection')
        return n
    OPS.op_len = len_


_install()
