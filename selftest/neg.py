from vc import *
@harness('a', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def a(v):
    ensure_same([[y for y in x] for x in v], [[] for x in v], 'x must fail')
@harness('b_ok', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def b(v):
    ensure_same([[y for y in x] for x in v], v, 'x')
@harness('c', 'ZZ', inputs={'v': DictOf(ListOf(Int()))})
def c(v):
    r = {}
    for k in v:
        l = []
        l.append(len(v[k]))
        r[k] = l
    ensure_same(r, {k: [] for k in v}, 'x must fail')
@harness('d', 'ZZ', inputs={'v': DictOf(DictOf(Int()))})
def d(v):
    ensure_same({k: {j: v[k][j] for j in v[k]} for k in v}, {k: {} for k in v}, 'x must fail')


class Box(object):
    pass


def boxes(v):
    out = []
    for x in v:
        b = Box()
        b.val = x
        b.val = x + 1
        out.append(b)
    return out


@harness('e', 'ZZ', inputs={'v': ListOf(Int())})
def e(v):
    ensure_same([b.val for b in boxes(v)], v, 'x must fail')


@harness('e_ok', 'ZZ', inputs={'v': ListOf(Int())})
def e_ok(v):
    ensure_same([b.val for b in boxes(v)], [x + 1 for x in v], 'x')


@harness('f', 'ZZ', inputs={'v': ListOf(Int())})
def f(v):
    s = 0
    for x in v:
        s += x
    ensure(s == 0, 'x must fail')


@harness('g', 'ZZ', inputs={'v': ListOf(Int())})
def g(v):
    ensure(all(x > 0 for x in v), 'x must fail')


@harness('h', 'ZZ', inputs={'v': DictOf(Int())})
def h(v):
    d = {}
    for k in v:
        d[k] = v[k]
        if v[k] == 7:
            break
    ensure_same(d, v, 'x must fail')


@harness('h2', 'ZZ', inputs={'v': DictOf(Int())})
def h2(v):
    try:
        for k in v:
            if v[k] == 7:
                raise ValueError
        t = 0
    except ValueError:
        t = 1
    ensure(t == 0, 'x must fail')


@harness('h2_ok', 'ZZ', inputs={'v': DictOf(Int())})
def h2_ok(v):
    try:
        for k in v:
            if v[k] == 7:
                raise ValueError
        t = 0
    except ValueError:
        t = 1
    ensure((t == 1) == any(v[k] == 7 for k in v), 'x')


@harness('i', 'ZZ', inputs={'a': Str(), 'b': Str()})
def i(a, b):
    ensure(a.lower() != b.lower() or a == b, 'x must fail')


@harness('i2', 'ZZ', inputs={'a': Str()})
def i2(a):
    ensure(a.strip() == a, 'x must fail')


@harness('i3', 'ZZ', inputs={'a': Str()})
def i3(a):
    ensure(a.split(';', 1)[0] == a, 'x must fail')


@harness('j', 'ZZ', inputs={'v': ListOf(Str())})
def j(v):
    seen = []
    for x in v:
        if x not in seen:
            seen.append(x)
    ensure_same(seen, v, 'x must fail')


@harness('k', 'ZZ', inputs={'v': ListOf(Tup(Str(), Int()))})
def k(v):
    d = {}
    for a, b in v:
        d[a] = b
    ensure(all(d[a] == b for a, b in v), 'x must fail')


@harness('k2', 'ZZ', inputs={'v': ListOf(Tup(Str(), Int())), 'x': Str()})
def k2(v, x):
    d = {}
    for a, b in v:
        d.setdefault(a, []).append(b)
    ensure(len(d.get(x, [])) < 2, 'x must fail')


@harness('l', 'ZZ', inputs={'v': DictOf(ListOf(Int()))})
def l(v):
    out = []
    for k in v:
        out.extend(v[k])
    ensure(len(out) == 0, 'x must fail')


@harness('m', 'ZZ', inputs={'v': ListOf(Int())})
def m(v):
    last = None
    for x in v:
        last = x
    ensure(last is None, 'x must fail')


@harness('n', 'ZZ', inputs={'v': ListOf(Int()), 'w': ListOf(Int())})
def n(v, w):
    ensure_same(v + w, w + v, 'x must fail')


@harness('o', 'ZZ', inputs={'u': DictOf(Int()), 'v': DictOf(Int())})
def o(u, v):
    a, b = dict(u), dict(v)
    a.update(v)
    b.update(u)
    ensure_same(a, b, 'x must fail')


@harness('p', 'ZZ', inputs={'v': ListOf(Int())})
def p(v):
    c = [0]
    for x in v:
        if x > 3:
            c[0] = x
    ensure(c[0] != 5, 'x must fail')


@harness('q', 'ZZ', inputs={'v': DictOf(Int())})
def q(v):
    r = {k: v[k] for k in v if v[k] > 0}
    ensure(len(r) == len(v), 'x must fail')


def flags(v, w):
    out = []
    for x in v:
        if x > 3:
            out.append(0)
        elif x < 0:
            out.append(0)
        else:
            out.append(w)
    return out


@harness('mp', 'ZZ', inputs={'v': ListOf(Int()), 'w': Int()})
def mp(v, w):
    ensure_same(flags(v, w), [0 for x in v], 'x must fail')


@harness('mp2_ok', 'ZZ', inputs={'v': ListOf(Int()), 'w': Int()})
def mp2(v, w):
    ensure_same(flags(v, w), [w if 0 <= x <= 3 else 0 for x in v], 'x')
    ensure(implies(all(x < 0 for x in v), all(y == 0 for y in flags(v, w))), 'y')


@harness('mp3', 'ZZ', inputs={'v': ListOf(Int()), 'w': Int()})
def mp3(v, w):
    ensure(implies(all(x < 2 for x in v), all(y == 0 for y in flags(v, w))), 'must fail')


@harness('po_ok', 'ZZ', inputs={'v': ListOf(Int(), min=1)})
def po(v):
    w = list(v)
    x = w.pop()
    ensure(x == v[-1], 'x')
    ensure(all(y in v for y in w), 'y')
    u = list(v)
    ensure(u.pop(0) == v[0], 'z')
    if len(v) > 1:
        ensure(v[1] in u, 't')


@harness('po2', 'ZZ', inputs={'v': ListOf(Int(), min=1)})
def po2(v):
    w = list(v)
    x = w.pop()
    ensure(x in w, 'must fail')


@harness('po3', 'ZZ', inputs={'v': ListOf(Int(), min=1)})
def po3(v):
    w = list(v)
    w.pop()
    ensure_same(w, v, 'must fail')


@harness('just_ok', 'ZZ', inputs={'s': Str()})
def just_ok(s):
    t, u = s.ljust(3, '0'), s.rjust(3, 'x')
    ensure(len(t) == max(3, len(s)), 'length')
    ensure(t[:len(s)] == s, 'in front')
    ensure(u.endswith(s), 'at the end')
    ensure(implies(len(s) == 1, t[1:] == '00'), 'filled')


@harness('just2', 'ZZ', inputs={'s': Str()})
def just2(s):
    ensure(s.ljust(3) == s.rjust(3), 'must fail')


# --- objects made for each element

def mk(y):
    b = Box(); b.val = y + 1; return b

def rows(v):
    out = []
    for x in v:
        r = []
        for y in x:
            r.append(mk(y))
        out.append(r)
    return out

@harness('g_n1_ok', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def n1(v):
    o = rows(v)
    ensure_same([[b.val for b in r] for r in o], [[y + 1 for y in r] for r in v], 'x')

@harness('g_n2', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def n2(v):
    o = rows(v)
    ensure_same([[b.val for b in r] for r in o], v, 'must fail')

@harness('g_n3', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def n3(v):
    o = rows(v)
    for r in o:
        for b in r:
            for c in r:
                ensure(b.val == c.val, 'must fail')

class P(object): pass
def parents(v):
    out = []
    for x in v:
        p = P(); p.kids = []
        for y in x:
            b = mk(y); b.par = p
            p.kids.append(b)
        out.append(p)
    return out

@harness('g_n4_ok', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def n4(v):
    for p in parents(v):
        for b in p.kids:
            ensure(b.par is p, 'x')
@harness('g_n5', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def n5(v):
    for p in parents(v):
        for b in p.kids:
            for c in p.kids:
                ensure(b.val == c.val, 'x')

def adopt(l, who):
    for b in l:
        b.par = who

def adopt2(l, who):
    ret = []
    def f(b):
        if b == None:
            return
        b.par = who
    for b in l:
        ret.append(f(b))
    return ret

def mades(v):
    return [mk(y) for y in v]

@harness('g_m1_ok', 'ZZ', inputs={'v': ListOf(Int())})
def m1(v):
    l = mades(v); p = P()
    adopt(l, p)
    for b, y in zip(l, v):
        ensure(b.par is p and b.val == y + 1, 'x')
@harness('g_m2_ok', 'ZZ', inputs={'v': ListOf(Int())})
def m2(v):
    l = mades(v); p = P()
    adopt2(l, p)
    for b in l:
        ensure(b.par is p, 'x')
@harness('g_m3', 'ZZ', inputs={'v': ListOf(Int())})
def m3(v):
    l = mades(v); p = P(); q = P()
    adopt(l, p)
    adopt(l, q)
    for b in l:
        ensure(b.par is p, 'must fail')
@harness('g_m4', 'ZZ', inputs={'v': ListOf(Int())})
def m4(v):
    l = mades(v); p = P(); q = P()
    adopt(l, p)
    k = [b for b in l]
    adopt(l, q)
    for b in k:
        ensure(b.par is p, 'must fail')
@harness('g_m5', 'ZZ', inputs={'v': ListOf(Int())})
def m5(v):
    l = mades(v); p = P(); q = P()
    adopt(l, p)
    last = None
    for b in l:
        last = b
    adopt(l, q)
    if last is not None:
        ensure(last.par is p, 'must fail')
@harness('g_m6', 'ZZ', inputs={'v': ListOf(Int()), 'w': ListOf(Int())})
def m6(v, w):
    l = mades(v)
    out = []
    for x in w:
        for b in l:
            out.append(b.val)
        for b in l:
            b.val = 0
    for o in out:
        ensure(o != 0 or any(y == -1 for y in v), 'must fail')
@harness('g_m7', 'ZZ', inputs={'v': ListOf(Int())})
def m7(v):
    l = mades(v)
    for b in l:
        if b.val > 3:
            b.val = 3
    for b in l:
        ensure(b.val == 3, 'must fail')
@harness('g_m8', 'ZZ', inputs={'v': ListOf(Int())})
def m8(v):
    l = mades(v)
    for b in l:
        if b.val > 3:
            break
        b.val = 0
    for b in l:
        ensure(b.val == 0, 'must fail')
@harness('g_m9_ok', 'ZZ', inputs={'v': ListOf(Int())})
def m9(v):
    l = mades(v)
    for b in l:
        b.val = b.val * 2
    ensure_same([b.val for b in l], [2 * (y + 1) for y in v], 'x')
@harness('g_ma', 'ZZ', inputs={'v': ListOf(Int())})
def ma(v):
    l = mades(v)
    first = l[0] if l else None
    for b in l:
        b.val = b.val * 2
    if first:
        ensure(first.val == v[0] + 1, 'must fail')
@harness('g_mb_ok', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def mb(v):
    o = [mades(x) for x in v]
    p = P()
    for r in o:
        adopt(r, p)
    for r in o:
        for b in r:
            ensure(b.par is p, 'x')
    ensure_same([[b.val for b in r] for r in o], [[y + 1 for y in r] for r in v], 'x')
@harness('g_mc', 'ZZ', inputs={'v': ListOf(ListOf(Int()))})
def mc(v):
    o = [mades(x) for x in v]
    for r in o:
        for b in r:
            b.val = len(r)
    for r in o:
        for b in r:
            ensure(b.val == 1, 'must fail')
@harness('g_md_ok', 'ZZ', inputs={'v': ListOf(Int())})
def md(v):
    l = mades(v)
    for b in l:
        c = b
        c.me = b
    for b in l:
        ensure(b.me is b, 'x')
@harness('g_me', 'ZZ', inputs={'v': ListOf(Int())})
def me(v):
    l = mades(v)
    keep = []
    for b in l:
        keep.append((b,))
        b.val = 0
    for b in l:
        b.val = 1
    for (b,) in keep:
        ensure(b.val == 0, 'must fail')
@harness('g_mf', 'ZZ', inputs={'v': ListOf(Int())})
def mf(v):
    l = mades(v)
    fs = []
    for b in l:
        fs.append(lambda: b.val)
    for b in l:
        b.val = 1
    for b, y in zip(l, v):
        ensure(b.val == y + 1, 'must fail')
@harness('g_mg_ok', 'ZZ', inputs={'v': DictOf(Int())})
def mg(v):
    d = {}
    for k in v:
        d[k] = {}
        d[k] = mk(v[k])
    p = P()
    for k, b in d.items():
        b.par = p
    for k in v:
        ensure(d[k].par is p and d[k].val == v[k] + 1, 'x')
@harness('g_mh', 'ZZ', inputs={'v': DictOf(Int())})
def mh(v):
    d = {}
    for k in v:
        d[k] = mk(v[k])
    for k, b in d.items():
        b.val = 7
    for k in v:
        ensure(d[k].val == v[k] + 1, 'must fail')
@harness('g_z1_ok', 'ZZ', inputs={'v': ListOf(Int())})
def z1(v):
    l = mades(v)
    for b, y in zip(l, v):
        ensure(b.val == y + 1, 'x')
@harness('g_z2_ok', 'ZZ', inputs={'v': ListOf(Int())})
def z2(v):
    l = mades(v); p = P()
    adopt(l, p)
    for b, y in zip(l, v):
        ensure(b.par is p, 'x')
def two(v):
    out = []
    for x in v:
        b = Box()
        if x > 0:
            b.val = x
            out.append(b)
        else:
            c = Box()
            c.val = -x
            out.append(c)
    return out
@harness('g_o1_ok', 'ZZ', inputs={'v': ListOf(Int())})
def o1(v):
    for b in two(v):
        ensure(b.val >= 0, 'x')
    ensure_same([b.val for b in two(v)], [x if x > 0 else -x for x in v], 'y')
@harness('g_o2', 'ZZ', inputs={'v': ListOf(Int())})
def o2(v):
    l = two(v)
    for b in l:
        for c in l:
            ensure(b.val == c.val or b.val == 5 or c.val == 5, 'must fail')
@harness('g_o3_ok', 'ZZ', inputs={'v': ListOf(Int())})
def o3(v):
    l = two(v)
    p = P()
    adopt(l, p)
    for b in l:
        ensure(b.par is p, 'x')
@harness('g_o4', 'ZZ', inputs={'v': ListOf(Int())})
def o4(v):
    l = mades(v)
    for i, b in enumerate(l):
        if b.val == 3:
            c = Box(); c.val = 4
            l[i] = c
    for b in l:
        for c in l:
            ensure(b.val == c.val, 'must fail')
@harness('g_o5', 'ZZ', inputs={'v': ListOf(Int())})
def o5(v):
    for b, y in zip(mades(v), v):
        ensure(b.val != 5, 'must fail')


@harness('g_zip1', 'X', inputs={'a': ListOf(Int()), 'b': ListOf(Int())})
def g_zip1(a, b):
    assume(len(a) == len(b))
    x = ['p' if v > 0 else 'q' for v in a]
    y = ['p' if v > 1 else 'q' for v in b]
    for u, w in zip(x, y):
        ensure(u == w, 'refuted: they differ for 1 and 1')


@harness('g_zip1_ok', 'X', inputs={'a': ListOf(Int()), 'b': ListOf(Int())})
def g_zip1_ok(a, b):
    assume(len(a) == len(b))
    x = ['p' if v > 0 else 'q' for v in a]
    y = ['p' if v > 1 else 'q' for v in a]
    for u, w in zip(x, y):
        ensure(u == 'p' or w == 'q', 'more than one is more than zero')


@harness('g_set1', 'X', inputs={'a': ListOf(Str()), 'q': Str()})
def g_set1(a, q):
    ensure((q in list(set(a + ['x']))) == (q in a), 'refuted: x')


@harness('g_set2', 'X', inputs={'a': ListOf(Str()), 'q': Str()})
def g_set2(a, q):
    ensure(len(list(set(a))) == len(a), 'not proved: repeated items')


@harness('g_set_ok', 'X', inputs={'a': ListOf(Str()), 'b': ListOf(Str()), 'q': Str()})
def g_set_ok(a, b, q):
    c = list(set(a + b))
    ensure(iff(q in c, either(q in a, q in b)), 'the same members')
    ensure(bool(c) == (len(a) + len(b) > 0), 'empty when both are')
