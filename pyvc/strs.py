"""String (and bytes) operations on symbolic values."""
import string as _string
import z3
from .core import (C, Sym, Lazy, Obj, Val, Unsupported, Infeasible, OPS, prog, box, norm, lift, concrete,
                   zstr, pystr, memo_get, memo_put, memo_lists, memo_add, valid, BytesS, SORTS)
from .ops import kind, issym, truth, mk, B, NUM, num
from .coll import (PyList, PyDict, PySet, CSeg, CPath, Items, Space, mklist, mksegs, run_loop, Exit, nonempty,
                   prove_same_content)
from . import transduce as T

SS = z3.StringSort()
_INT = z3.IntSort()


def st(v):
    return lift(v).t


def uf(name, args, ret):
    args = [a.t if isinstance(a, Sym) else lift(a).t if isinstance(a, (str, int, float, bool)) else a for a in args]
    f = z3.Function(name, *([a.sort() for a in args] + [SORTS[ret] if isinstance(ret, str) else ret]))
    return f(*args)


def isprogstr(v):
    return isinstance(v, str) or (isinstance(v, Sym) and v.k == 'str')


def need_str(v, what='argument'):
    v = norm(v)
    if isprogstr(v):
        return v
    if isinstance(v, Sym) and v.k == 'opq':
        raise Unsupported('opaque value used as a string')
    raise prog(TypeError('%s must be str, not %s' % (what, kind(v))))


# -- digits of known number -----------------------------------------------------
def digits(n, w):
    """the w decimal digits of an integer term known to have no more"""
    t = z3.Function('digits!%d' % w, _INT, SS)(n)
    if not any(x.eq(t) for x in memo_lists('digits')):
        memo_add('digits', t)
        C.fact(z3.Length(t) == w)
        C.fact(z3.InRe(t, z3.Loop(z3.Range('0', '9'), w, w)))
        C.fact((n == 0) == (t == zstr('0' * w)))
        C.fact(z3.Function('undigits', SS, _INT)(t) == n)
    return t


def digits_of(t):
    if z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('digits!'):
        return t.arg(0), int(t.decl().name()[7:])
    return None


def fixed(t):
    """the characters of a text of known length: one-character texts, or (piece, position) for unknown digits; None if not known"""
    out = []
    some = False
    for x in parts_of(t):
        if z3.is_string_value(x):
            out.extend(pystr(x))
            continue
        d = digits_of(x)
        if d is None:
            return None
        some = True
        out.extend((x, i) for i in range(d[1]))
    return out if some else None


def fixed_slice(f, lo, hi):
    cs = f[lo:hi]
    ps = []
    i = 0
    while i < len(cs):
        c = cs[i]
        if isinstance(c, str):
            ps.append(zstr(c))
            i += 1
            continue
        j = i
        while j < len(cs) and not isinstance(cs[j], str) and cs[j][0].eq(c[0]) and cs[j][1] == c[1] + j - i:
            j += 1
        n, w = digits_of(c[0])
        a, b = c[1], c[1] + j - i
        if (a, b) == (0, w):
            ps.append(c[0])
        else:
            v = n
            if b < w:
                v = v / z3.IntVal(10 ** (w - b))
            if a > 0:
                v = v % z3.IntVal(10 ** (b - a))
            ps.append(digits(z3.simplify(v), b - a))
        i = j
    r = join_parts(ps)
    if isinstance(r, Sym):
        v = z3.simplify(r.t)
        return pystr(v) if z3.is_string_value(v) else Sym('str', v)
    return r


def fixed_int(t):
    """the number written by a text of digits of known length, or None"""
    f = fixed(z3.simplify(t))
    if f is None or not all(not isinstance(c, str) or c in '0123456789' for c in f):
        return None
    total = z3.IntVal(0)
    for x in parts_of(z3.simplify(t)):
        if z3.is_string_value(x):
            v = pystr(x)
            total = total * (10 ** len(v)) + int(v)
        else:
            n, w = digits_of(x)
            total = total * (10 ** w) + n
    return z3.simplify(total)


# -- replace chains -----------------------------------------------------------
def chain_of(t):
    """term -> (base term, [(a,b)...])"""
    steps = []
    while z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('replace!'):
        r = _REP.get(t.decl().name())
        if r is None:
            break
        steps.append(r)
        t = t.arg(0)
    return t, steps[::-1]


_REP = {}


def atom_free(t, lit):
    """is it known that the string term never contains lit?"""
    if z3.is_string_value(t):
        return lit not in pystr(t)
    base, steps = chain_of(t)
    if steps:
        avoid = ''.join(ch for ch in set(lit) | set(''.join(a + b for a, b in steps)) if known_free(base, ch))
        if T.never_contains(T.Chain(steps), lit, avoid):
            return True
    if len(lit) == 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        if all(atom_free(t.arg(i), lit) for i in range(t.num_args())):
            return True
    if len(lit) == 1 and z3.is_app(t) and t.decl().name() in CHARFREE and lit in CHARFREE[t.decl().name()]:
        return True
    if len(lit) == 1 and not lit.isalpha() and z3.is_app(t) and t.decl().name() in ('str.lower', 'str.upper') and t.num_args() == 1:
        if atom_free(t.arg(0), lit):
            return True
    return known_free(t, lit)


CHARFREE = {}


def other_char(t, c):
    """is t a character of a text that is known not to contain the character c?"""
    if not (z3.is_string_value(c) and len(pystr(c)) == 1 and z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SEQ_AT, z3.Z3_OP_SEQ_EXTRACT)):
        return False
    return any(pystr(c) in l and x.eq(t.arg(0)) for x, l in memo_lists('free'))


def excluded(t, text):
    """is some character of the text known not to occur in t?"""
    return any(x.eq(t) and any(ch in l for ch in text) for x, l in memo_lists('free'))


def known_free(t, lit):
    for x, l in memo_lists('free'):
        if len(lit) == 1 and lit in l and x.eq(t):
            return True
    for sep, segs, r in memo_lists('joins'):
        if r.eq(t) and len(lit) == 1 and lit not in sep and all_free(segs, lit):
            return True
    return valid(z3.Not(z3.Contains(t, zstr(lit))))


def contains_t(t, sub):
    """z3 formula for `sub in t`"""
    if z3.is_string_value(sub) and pystr(sub):
        if atom_free_cheap(t, pystr(sub)):
            return z3.BoolVal(False)
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ('str.lower', 'str.upper') and not any(ch.isalpha() for ch in pystr(sub)):
            return contains_t(t.arg(0), sub)
    return z3.Contains(t, sub)


def atom_free_cheap(t, lit):
    if z3.is_string_value(t):
        return lit not in pystr(t)
    base, steps = chain_of(t)
    if steps and T.never_contains(T.Chain(steps), lit):
        return True
    for x, l in memo_lists('free'):
        if x.eq(t) and any(ch in l for ch in lit):
            return True
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return any(all(atom_free_cheap(x, ch) for x in parts_of(t)) for ch in set(lit))
    if len(lit) == 1 and z3.is_app(t):
        if t.decl().name() in CHARFREE and lit in CHARFREE[t.decl().name()]:
            return True
    return False


def s_replace(s, a, b, count=None):
    a, b = need_str(a), need_str(b)
    if count is not None:
        raise Unsupported('replace with a count')
    if not (isinstance(a, str) and isinstance(b, str)):
        return mk('str', uf('str.replaceall', [s, a, b], 'str'))
    if a == '':
        raise Unsupported('replace of the empty string')
    t = st(s)
    if is_int_str(t) and any(ch not in '-0123456789' for ch in a):
        return s
    base, steps = chain_of(t)
    steps = steps + [(a, b)]
    C.stats['transducer'] = C.stats.get('transducer', 0) + 1
    ch = T.Chain(steps)
    if atom_free_cheap(t, a):
        return s
    if T.equivalent(ch, T.Chain([]), '~'):
        return mk('str', base)
    for k in range(1, len(steps)):
        if T.equivalent(ch, T.Chain(steps[:k])):
            r = base
            for st_ in steps[:k]:
                r = rep_term(r, *st_)
            return Sym('str', r)
    for obase, osteps, oterm in memo_lists('chains'):
        if obase.eq(base) and T.equivalent(ch, T.Chain(osteps)):
            return Sym('str', oterm)
    r = rep_term(t, a, b)
    memo_add('chains', (base, steps, r))
    # facts for the solver
    for lit in sorted(set(a) | {'/'}):
        if T.never_contains(ch, lit):
            C.fact(z3.Not(z3.Contains(r, zstr(lit))))
    C.fact((z3.Length(t) == 0) == (z3.Length(r) == 0) if b else z3.Implies(z3.Length(t) == 0, z3.Length(r) == 0))
    C.fact(z3.Implies(z3.Not(z3.Contains(t, zstr(a))), r == t))
    inv = [(y, x) for x, y in reversed(steps)]
    if all(x for x, _ in inv) and T.equivalent(T.Chain(steps + inv), T.Chain([])):
        # the chain is invertible, hence injective
        C.fact(z3.Function('unreplace!' + repr(steps), SS, SS)(r) == base)
    return Sym('str', r)


def is_int_str(t):
    return z3.is_app(t) and t.num_args() == 1 and t.decl().name() == 'str.of_int'


def rep_term(t, a, b):
    n = 'replace!' + repr((a, b))
    _REP[n] = (a, b)
    return z3.Function(n, SS, SS)(t)


# -- split / join -------------------------------------------------------------
def split_segs(t, sep):
    """segments of t.split(sep), sep a literal"""
    if z3.is_string_value(t):
        return [Items(pystr(t).split(sep))]
    for sp, segs, r in memo_lists('joins'):
        if r.eq(t) and sp == sep and all_free(segs, sep):
            if nonempty(segs):
                return list(segs)
            return [Items([''])]
    if len(sep) > 1:
        ps = parts_of(z3.simplify(t))
        occ = lit_occ(ps, sep)
        if occ is not None:
            vals = []
            i, at = 0, 0
            for j, o in occ + [(len(ps), 0)]:
                piece = []
                for k in range(i, min(j + 1, len(ps))):
                    if z3.is_string_value(ps[k]):
                        v = pystr(ps[k])
                        piece.append(zstr(v[at if k == i else 0:o if k == j else len(v)]))
                    else:
                        piece.append(ps[k])
                vals.append(join_parts(piece))
                i, at = j, o + len(sep)
            return [Items(vals)]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        ar = parts_of(z3.simplify(t))
        out = []            # closed pieces
        open_ = None        # the piece still being built (term)
        symlast = False
        for i in range(len(ar)):
            a = ar[i]
            if len(sep) != 1 and not z3.is_string_value(a):
                return opaque_split(t, sep)
            segs = split_segs(a, sep)
            first = segs[0] if isinstance(segs[0], Items) else None
            if first is None:
                if open_ is not None and not is_empty_lit(open_):
                    return opaque_split(t, sep)
                # pieces of an unknown string: its last piece must be closed by a separator
                if i + 1 < len(ar):
                    nx = ar[i + 1]
                    if not (z3.is_string_value(nx) and pystr(nx).startswith(sep)):
                        return opaque_split(t, sep)
                out.extend(segs)
                open_ = None
                symlast = True
                continue
            pieces = list(first.vals)
            rest = segs[1:]
            if symlast:
                # previous unknown string closed by the separator at the start of this literal
                if pieces[0] != '':
                    return opaque_split(t, sep)
                pieces = pieces[1:]
                symlast = False
                open_ = None
            else:
                if open_ is not None:
                    pieces[0] = cat(open_, pieces[0])
            if rest:
                out.append(Items(pieces))
                out.extend(rest)
                open_ = None
                symlast = True
                if i + 1 < len(ar):
                    nx = ar[i + 1]
                    if not (z3.is_string_value(nx) and pystr(nx).startswith(sep)):
                        return opaque_split(t, sep)
                continue
            if len(pieces) > 1:
                out.append(Items(pieces[:-1]))
            open_ = pieces[-1]
        if open_ is not None:
            out.append(Items([open_]))
        return merge_items(out)
    if atom_free(t, sep):
        return [Items([concrete(Sym('str', t))])]
    return opaque_split(t, sep)


def merge_items(segs):
    out = []
    for s in segs:
        if out and isinstance(s, Items) and isinstance(out[-1], Items):
            out[-1] = Items(out[-1].vals + s.vals)
        else:
            out.append(s)
    return out


def is_empty_lit(x):
    return isinstance(x, str) and x == ''


def cat(a, b):
    if is_empty_lit(a):
        return b
    if is_empty_lit(b):
        return a
    return mk('str', z3.Concat(st(a), st(b)))


def opaque_split(t, sep):
    nm = 'split' + repr(sep)
    sp = Space('seq', nm, (t,))
    g = z3.Int(nm + '$g')
    f = z3.Function(nm + '.el', SS, _INT, SS)
    C.fact(sp.length() >= 1)
    # one piece exactly when the separator is absent
    C.fact((sp.length() == 1) == z3.Not(z3.Contains(t, zstr(sep))))
    C.fact(z3.Implies(sp.length() == 1, f(t, z3.IntVal(0)) == t))
    conds = (z3.Not(z3.Contains(f(t, g), zstr(sep))),)
    C.facts[conds[0].get_id()] = conds[0]
    seg = CSeg(sp, g, [CPath(conds, (), (Items([Sym('str', f(t, g))]),))])
    memo_add('splits', (t, sep, seg))
    return [seg]


def all_free(segs, sep):
    return every_piece(segs, lambda x: atom_free(x, sep))


def s_split(s, sep=None, maxsplit=-1):
    if sep is None:
        raise Unsupported('split() on white space')
    sep = need_str(sep)
    if not isinstance(sep, str):
        raise Unsupported('split with a symbolic separator')
    if maxsplit != -1:
        if maxsplit == 1:
            p = s_partition(s, sep)
            return mklist([p[0], p[2]]) if truth(p[1]) else mklist([s])
        if not isinstance(maxsplit, int) or not 0 <= maxsplit < 10:
            raise Unsupported('split with maxsplit')
        out = []
        for _ in range(maxsplit):
            p = s_partition(s, sep)
            if not truth(p[1]):
                break
            out.append(p[0])
            s = p[2]
        return mklist(out + [s])
    return mksegs(split_segs(st(s), sep))


def parts_of(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for i in range(t.num_args()):
            out.extend(parts_of(t.arg(i)))
        return out
    return [t]


def join_parts(ps):
    ps = [x for x in ps if not (z3.is_string_value(x) and pystr(x) == '')]
    if not ps:
        return ''
    return mk('str', ps[0] if len(ps) == 1 else z3.Concat(*ps))


def lit_occ(ps, lit):
    """all occurrences (part, offset) of a literal in a concatenation whose unknown parts have no character of it, or None"""
    lits = [(i, pystr(x)) for i, x in enumerate(ps) if z3.is_string_value(x)]
    if len(lits) < len(ps):
        for i, x in enumerate(ps):
            if not z3.is_string_value(x) and not all(atom_free(x, c) for c in sorted(set(lit))):
                return None
    # unknown parts may be empty: no occurrence may span two literals
    joined = ''.join(v for _, v in lits)
    n = 0
    at = joined.find(lit)
    while at >= 0:
        n += 1
        at = joined.find(lit, at + 1)
    out = []
    m = 0
    for i, v in lits:
        at = v.find(lit)
        while at >= 0:
            m += 1
            if not out or out[-1][0] != i or at >= out[-1][1] + len(lit):
                out.append((i, at))
            at = v.find(lit, at + 1)
    return out if m == n and m == len(out) else None


def struct_partition(t, lit, last=False):
    """(before, after) of the first/last occurrence of a literal in a concatenation, () when there is none, or None"""
    ps = parts_of(t)
    if len(lit) != 1:
        if not lit:
            return None
        if len(ps) == 1 and not z3.is_string_value(ps[0]) and not any(atom_free(ps[0], c) for c in lit):
            return None
        occ = lit_occ(ps, lit)
        if occ is None:
            return None
        if not occ:
            return ()
        i, at = occ[-1 if last else 0]
        v = pystr(ps[i])
        return join_parts(ps[:i] + [zstr(v[:at])]), join_parts([zstr(v[at + len(lit):])] + ps[i + 1:])
    seq = list(enumerate(ps))
    for i, x in (seq[::-1] if last else seq):
        if z3.is_string_value(x) and lit in pystr(x):
            a, _, b = pystr(x).rpartition(lit) if last else pystr(x).partition(lit)
            return join_parts(ps[:i] + [zstr(a)]), join_parts([zstr(b)] + ps[i + 1:])
        if not atom_free(x, lit):
            return None
    return ()


def s_partition(s, sep):
    t = st(s)
    z = st(sep)
    if z3.is_string_value(z):
        r = struct_partition(z3.simplify(t), pystr(z))
        if r:
            return (r[0], sep, r[1])
        if r == ():
            return (s, '', '')
    if C.branch(contains_t(t, z)):
        i = z3.IndexOf(t, z, 0)
        C.fact(i >= 0)
        a = mk('str', z3.SubString(t, 0, i))
        b = mk('str', z3.SubString(t, i + z3.Length(z), z3.Length(t)))
        return (a, sep, b)
    return (s, '', '')


def s_rpartition(s, sep):
    t = st(s)
    z = st(sep)
    if z3.is_string_value(z):
        r = struct_partition(z3.simplify(t), pystr(z), True)
        if r:
            return (r[0], sep, r[1])
        if r == ():
            return ('', '', s)
    if C.branch(contains_t(t, z)):
        key = ('rpart', t.get_id(), z.get_id())
        m = memo_get(key)
        if m is None:
            a, b = C.fresh('str', 'rp'), C.fresh('str', 'rp')
            C.fact(t == z3.Concat(a, z, b))
            C.fact(z3.Not(z3.Contains(b, z)))
            m = (a, b, t, z)
            memo_put(key, m)
        return (Sym('str', m[0]), sep, Sym('str', m[1]))
    return ('', '', s)


def s_rsplit(s, sep=None, maxsplit=-1):
    sep = need_str(sep)
    if maxsplit == 1:
        p = s_rpartition(s, sep)
        return mklist([p[0], p[2]]) if truth(p[1]) else mklist([s])
    if maxsplit == -1:
        return s_split(s, sep)
    raise Unsupported('rsplit with maxsplit')


def s_join(sep, it):
    from .rtl import segs_of
    try:
        segs = merge_items(segs_of(it))
    except Unsupported as e:
        if 'keys may repeat' not in str(e):
            raise
        # some text: the order of the set decides it
        return Sym('str', C.fresh('str', 'uh:join'))
    sep = need_str(sep)
    if all(isinstance(s, Items) for s in segs):
        vals = [v for s in segs for v in s.vals]
        out = None
        for v in vals:
            v = need_str(v, 'sequence item')
            out = v if out is None else cat(cat(out, sep), v)
        return '' if out is None else out
    if not isinstance(sep, str):
        raise Unsupported('join with a symbolic separator')

    def chkstr(v):
        need_str(v, 'sequence item')
    run_loop(segs, chkstr)
    from .rtl import simple
    if len(segs) > 1 and all(isinstance(x, Items) or simple(x) for x in segs):
        out = None
        for x in segs:
            if isinstance(x, Items):
                parts = x.vals
            elif nonempty((x,)):
                parts = [join_mid(sep, (x,))]
            else:
                continue
            for v in parts:
                out = need_str(v) if out is None else cat(cat(out, sep), need_str(v))
        return '' if out is None else out
    if isinstance(segs[0], Items) or isinstance(segs[-1], Items):
        # known elements around an unbounded middle
        pre = list(segs[0].vals) if isinstance(segs[0], Items) else []
        mid = segs[1:] if pre else segs
        post = []
        if mid and isinstance(mid[-1], Items):
            post = list(mid[-1].vals)
            mid = mid[:-1]
        parts = pre + ([join_mid(sep, mid)] if nonempty(mid) else []) + post
        out = None
        for v in parts:
            out = need_str(v) if out is None else cat(cat(out, sep), need_str(v))
        return '' if out is None else out
    return join_mid(sep, segs)


def join_mid(sep, segs):
    # join(split(s)) == s
    if len(segs) == 1:
        for t, sp, seg in memo_lists('splits'):
            if sp == sep and seg is segs[0]:
                return concrete(Sym('str', t))
    # elements surrounding a symbolic middle
    for sp, osegs, r in memo_lists('joins'):
        if sp == sep and prove_same_content('list', osegs, tuple(segs)):
            return Sym('str', r)
    for t, sp, seg in memo_lists('splits'):
        if sp == sep and prove_same_content('list', (seg,), tuple(segs)):
            return concrete(Sym('str', t))
    r = C.fresh('str', 'join')
    memo_add('joins', (sep, tuple(segs), r))
    if not nonempty(segs):
        C.assume(r == zstr(''))
        return ''
    if every_piece(segs, lambda x: valid(x != zstr(''))):
        C.fact(r != zstr(''))
    if sep == '' and every_piece(segs, lambda x: valid(z3.Length(x) == 1)):
        from .rtl import num, list_len
        C.fact(z3.Length(r) == num(list_len(segs))[0])
    return Sym('str', r)


# -- slices, search -------------------------------------------------------------
def cut_at(t, x):
    """(before, after) of a known position in the string, or None"""
    if x is None:
        return None
    if isinstance(x, int):
        ps = parts_of(z3.simplify(t))
        v = ps[0 if x >= 0 else -1]
        if z3.is_string_value(v) and -len(pystr(v)) <= x <= len(pystr(v)):
            v = pystr(v)
            if x >= 0:
                return join_parts([zstr(v[:x])]), join_parts([zstr(v[x:])] + ps[1:])
            return join_parts(ps[:-1] + [zstr(v[:x])]), join_parts([zstr(v[x:])])
        if x == 0:
            return '', mk('str', t)
        return None
    for t2, at, sub, a, b in memo_lists('cuts'):
        if t2.eq(t):
            d = z3.simplify(num(x)[0] - at)
            if z3.is_int_value(d) and 0 <= d.as_long() <= len(sub):
                d = d.as_long()
                return cat(a, sub[:d]), cat(sub[d:], b)
    # the length of a prefix of its parts
    ps = parts_of(z3.simplify(t))
    at = z3.IntVal(0)
    for i in range(len(ps) + 1):
        d = z3.simplify(num(x)[0] - at)
        if z3.is_int_value(d):
            d = d.as_long()
            if d == 0:
                return join_parts(ps[:i]), join_parts(ps[i:])
            if i < len(ps) and z3.is_string_value(ps[i]) and 0 < d < len(pystr(ps[i])):
                v = pystr(ps[i])
                return join_parts(ps[:i] + [zstr(v[:d])]), join_parts([zstr(v[d:])] + ps[i + 1:])
        if i < len(ps):
            at = at + z3.Length(ps[i])
    return None


def struct_slice(t, lo, hi):
    if lo is None and hi is None:
        return mk('str', t)
    if lo in (None, 0) if isinstance(lo, (int, type(None))) else False:
        c = cut_at(t, hi)
        return None if c is None else c[0]
    if hi is None:
        c = cut_at(t, lo)
        return None if c is None else c[1]
    return None


def solid(t, chars):
    """does a joined text surely begin and end with other characters?"""
    for sep, segs, r in memo_lists('joins'):
        if r.eq(t):
            return nonempty(segs) and every_piece(segs, lambda x: all(atom_free(x, c) for c in chars) and valid(x != zstr('')))
    return False


def every_piece(segs, pred):
    ok = [True]

    def body(v):
        v = norm(v)
        if not isprogstr(v) or not pred(st(v)):
            ok[0] = False

    def thunk():
        for s in segs:
            if isinstance(s, Items):
                for v in s.vals:
                    body(v)
            else:
                from .coll import explore_body
                explore_body(s, lambda v: body(v))
    C.explore(thunk, lambda fr, s, v: None)
    return ok[0]


def strip_struct(t, chars, left):
    """the string without the leading/trailing characters, or None"""
    ps = parts_of(z3.simplify(t))
    if not left:
        ps = ps[::-1]
    while ps:
        x = ps[0]
        if z3.is_string_value(x):
            v = pystr(x)
            w = v.lstrip(chars) if left else v.rstrip(chars)
            if w:
                ps[0] = zstr(w)
                break
            ps = ps[1:]
        else:
            if solid(x, chars):
                break
            if not all(atom_free(x, c) for c in chars):
                return None
            if not C.branch(x == zstr('')):
                break
            ps = ps[1:]
    return join_parts(ps if left else ps[::-1])


def s_rfind(s, sub):
    t = st(s)
    if isinstance(sub, str) and sub:
        r = struct_partition(z3.simplify(t), sub, True)
        if r == ():
            return -1
        if r:
            at = z3.simplify(z3.Length(st(r[0])))
            memo_add('cuts', (t, at, sub, r[0], r[1]))
            return mk('int', at)
    return mk('int', uf('str.rfind', [s, sub], 'int'))


def s_getitem(s, i):
    t = st(s)
    n = z3.Length(t)
    if isinstance(i, slice):
        if i.step is not None:
            raise Unsupported('string slice with a step')
        f = fixed(z3.simplify(t))
        if f is not None and all(isinstance(x, (int, type(None))) for x in (norm(i.start), norm(i.stop))):
            return fixed_slice(f, norm(i.start), norm(i.stop))
        r = struct_slice(t, norm(i.start), norm(i.stop))
        if r is not None:
            return r

        def bound(x, d):
            x = norm(x)
            if x is None:
                return d
            if isinstance(x, int) and x >= 0:
                return z3.If(z3.IntVal(x) <= n, z3.IntVal(x), n)
            tx = num(x)[0]
            return z3.If(tx < 0, z3.If(tx + n < 0, z3.IntVal(0), tx + n), z3.If(tx > n, n, tx))
        lo = bound(i.start, z3.IntVal(0))
        hi = bound(i.stop, n)
        return mk('str', z3.SubString(t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
    i = norm(i)
    if isinstance(i, int):
        f = fixed(z3.simplify(t))
        if f is not None and -len(f) <= i < len(f):
            return fixed_slice(f, i % len(f), i % len(f) + 1)
        ps = parts_of(z3.simplify(t))
        x = ps[0 if i >= 0 else -1]
        if z3.is_string_value(x) and -len(pystr(x)) <= i < len(pystr(x)):
            return pystr(x)[i]
        if i in (0, -1):
            # the first or last character is the one of the first piece that is not empty
            for x in ps if i == 0 else ps[::-1]:
                if z3.is_string_value(x):
                    return pystr(x)[i]
                if not C.branch(x == zstr('')):
                    return mk('str', z3.SubString(x, 0 if i == 0 else z3.Length(x) - 1, 1))
            raise prog(IndexError('string index out of range'))
    ti = num(i)[0]
    idx = z3.If(ti < 0, ti + n, ti)
    if C.branch(z3.And(idx >= 0, idx < n)):
        return mk('str', z3.SubString(t, idx, 1))
    raise prog(IndexError('string index out of range'))


def s_find(s, sub, start=0):
    t, u = st(s), st(need_str(sub))
    start = norm(start)
    if z3.is_string_value(u) and isinstance(start, int) and start == 0:
        r = struct_partition(z3.simplify(t), pystr(u)) if pystr(u) else None
        if r == ():
            return -1
        if r:
            at = z3.simplify(z3.Length(st(r[0])))
            memo_add('cuts', (t, at, pystr(u), r[0], r[1]))
            return mk('int', at)
        if C.branch(contains_t(t, u)):
            r = z3.IndexOf(t, u, 0)
            C.fact(z3.And(r >= 0, r + z3.Length(u) <= z3.Length(t)))
            return mk('int', r)
        return -1
    return mk('int', z3.IndexOf(t, u, num(start)[0]))


def s_index(s, sub, start=0):
    r = s_find(s, sub, start)
    if truth(r < 0):
        raise prog(ValueError('substring not found'))
    return r


def s_startswith(s, p, start=None):
    p = norm(p)
    if start is not None:
        raise Unsupported('startswith with a start')
    if isinstance(p, tuple):
        for x in p:
            if truth(s_startswith(s, x)):
                return True
        return False
    pt, t = st(need_str(p)), st(s)
    pp, tp = parts_of(z3.simplify(pt)), parts_of(z3.simplify(t))
    if len(tp) >= len(pp) and all(a.eq(b) for a, b in zip(pp, tp)):
        return True
    if z3.is_string_value(tp[0]) and z3.is_string_value(pp[0]):
        a, b = pystr(pp[0]), pystr(tp[0])
        if not b.startswith(a) and not a.startswith(b):
            return False
        if len(pp) == 1 and b.startswith(a):
            return True
    if z3.is_string_value(pp[0]) and pystr(pp[0]) and solid(tp[0], pystr(pp[0])[0]):
        return False
    if len(pp) == 1 and z3.is_string_value(pp[0]):
        return B(prefix_formula(tp, pystr(pp[0])))
    return B(z3.PrefixOf(pt, t))


def s_endswith(s, p):
    p = norm(p)
    if isinstance(p, tuple):
        for x in p:
            if truth(s_endswith(s, x)):
                return True
        return False
    pt, t = st(need_str(p)), st(s)
    pp, tp = parts_of(z3.simplify(pt)), parts_of(z3.simplify(t))
    if len(tp) >= len(pp) and all(a.eq(b) for a, b in zip(pp[::-1], tp[::-1])):
        return True
    if z3.is_string_value(tp[-1]) and z3.is_string_value(pp[-1]):
        a, b = pystr(pp[-1]), pystr(tp[-1])
        if not b.endswith(a) and not a.endswith(b):
            return False
        if len(pp) == 1 and b.endswith(a):
            return True
    if z3.is_string_value(pp[-1]) and pystr(pp[-1]) and solid(tp[-1], pystr(pp[-1])[-1]):
        return False
    if len(pp) == 1 and z3.is_string_value(pp[0]):
        return B(suffix_formula(tp, pystr(pp[0])))
    return B(z3.SuffixOf(pt, t))


def suffix_formula(tp, s):
    """does the concatenation of the pieces end with s?"""
    if not s:
        return z3.BoolVal(True)
    if not tp:
        return z3.BoolVal(False)
    x = tp[-1]
    if z3.is_string_value(x):
        v = pystr(x)
        if v.endswith(s):
            return z3.BoolVal(True)
        return suffix_formula(tp[:-1], s[:-len(v)]) if s.endswith(v) else z3.BoolVal(False)
    fs = [] if excluded(x, s) else [z3.SuffixOf(zstr(s), x)]
    for k in range(1, len(s) + 1):
        r = suffix_formula(tp[:-1], s[:k])
        if not z3.is_false(r) and not excluded(x, s[k:]):
            fs.append(z3.And(x == zstr(s[k:]), r))
    return z3.Or(*fs) if len(fs) > 1 else fs[0] if fs else z3.BoolVal(False)


def prefix_formula(tp, s):
    if not s:
        return z3.BoolVal(True)
    if not tp:
        return z3.BoolVal(False)
    x = tp[0]
    if z3.is_string_value(x):
        v = pystr(x)
        if v.startswith(s):
            return z3.BoolVal(True)
        return prefix_formula(tp[1:], s[len(v):]) if s.startswith(v) else z3.BoolVal(False)
    fs = [] if excluded(x, s) else [z3.PrefixOf(zstr(s), x)]
    for k in range(len(s)):
        r = prefix_formula(tp[1:], s[k:])
        if not z3.is_false(r) and not excluded(x, s[:k]):
            fs.append(z3.And(x == zstr(s[:k]), r))
    return z3.Or(*fs) if len(fs) > 1 else fs[0] if fs else z3.BoolVal(False)


def s_case(which):
    def f(s):
        if isinstance(s, str):
            return getattr(s, which)()
        t = s.t
        nm = 'str.' + which
        if z3.is_app(t) and t.decl().name() == nm:
            return s
        if which in ('lower', 'upper'):
            ps = parts_of(z3.simplify(t))
            if len(ps) > 1:
                out = ''
                for x in ps:
                    out = cat(out, f(mk('str', x)))
                return out
            g = z3.Function(nm, SS, SS)
            r = g(t)
            C.fact((r == zstr('')) == (t == zstr('')))     # ASCII-like (headers, media types)
            C.fact(g(r) == r)
            C.trusted.add('str.%s maps every character to one character (ASCII)' % which)
        else:
            r = z3.Function(nm, SS, SS)(t)
        return Sym('str', r)
    return f


def s_generic(name, ret):
    def f(s, *a):
        if isinstance(s, str) and not any(issym(x) for x in a):
            try:
                return getattr(s, name)(*a)
            except Exception as e:
                raise prog(e)
        a = [norm(x) for x in a]
        if name in ('lstrip', 'rstrip') and len(a) == 1 and isinstance(a[0], str) and a[0]:
            r = strip_struct(st(s), a[0], name == 'lstrip')
            if r is not None:
                return r
        if name in ('strip', 'lstrip', 'rstrip') and not a:
            t = z3.simplify(s.t)
            nm = t.decl().name() if z3.is_app(t) and t.num_args() == 1 else ''
            if nm in ('str.lower', 'str.upper'):
                return s_case(nm[4:])(f(mk('str', t.arg(0))))
            r = uf('str.' + name, [s], ret)
            C.fact(z3.Function('str.' + name, SS, SS)(r) == r)
            return mk(ret, r)
        return mk(ret, uf('str.' + name, [s] + list(a), ret))
    return f


def s_encode(s, enc='utf-8', errors='strict'):
    if isinstance(s, str):
        try:
            return s.encode(enc, errors)
        except Exception as e:
            raise prog(e)
    enc = need_str(enc)
    t = s.t
    if z3.is_app(t) and t.decl().name() == 'bytes.decode' and t.arg(0).eq(st(enc)):
        return Sym('bytes', t.arg(1))
    if z3.is_app(t) and t.decl().name() == 'base64.text':
        return Sym('bytes', t.arg(0))
    if isinstance(enc, str) and enc.lower() in PIECEWISE and errors == 'strict':
        out = []
        for x in parts_of(z3.simplify(t)):
            if z3.is_string_value(x):
                try:
                    out.append(by(pystr(x).encode(enc)))
                except UnicodeError as e:
                    raise prog(e)
            elif digits_of(x) or is_int_str(x) or (z3.is_app(x) and x.decl().name() in ('uuid.hex', 'uuid.text')):
                out.append(x)
            elif z3.is_app(x) and x.decl().name() == 'bytes.decode' and x.arg(0).eq(st(enc)):
                out.append(x.arg(1))
            elif z3.is_app(x) and x.decl().name() == 'base64.text':
                out.append(x.arg(0))
            else:
                if enc.lower() not in ('utf-8', 'utf8') and not ascii_join(x) and not C.branch(z3.Function('str.encodable', SS, SS, z3.BoolSort())(st(enc), x)):
                    raise prog(UnicodeEncodeError(enc, '?', 0, 1, 'symbolic'))
                r = z3.Function('str.encode', SS, SS, BytesS)(st(enc), x)
                C.fact((r == zstr('')) == (x == zstr('')))
                if isinstance(enc, str) and enc.lower() in ('ascii', 'latin-1', 'latin1', 'iso-8859-1'):
                    C.fact(z3.Length(r) == z3.Length(x))
                out.append(r)
        return mkbytes(out[0] if len(out) == 1 else z3.Concat(*out))
    return Sym('bytes', z3.Function('str.encode', SS, SS, BytesS)(st(enc), t))


ASCII = z3.Star(z3.Range('\x00', '\x7f'))


def ascii_join(t):
    """t joins pieces that are ASCII texts, all of them"""
    return any(r.eq(t) and sep.isascii() and every_piece(segs, lambda x: valid(z3.InRe(x, ASCII))) for sep, segs, r in memo_lists('joins'))


PIECEWISE = ('utf-8', 'utf8', 'ascii', 'latin-1', 'latin1', 'iso-8859-1')


def by_decode(b, enc='utf-8', errors='strict'):
    if isinstance(b, bytes):
        return b.decode(enc, errors)
    enc = need_str(enc)
    t = b.t
    if z3.is_app(t) and t.decl().name() == 'str.encode' and t.arg(0).eq(st(enc)):
        return concrete(Sym('str', t.arg(1)))
    if z3.is_app(t) and t.decl().name().startswith('base64.') and t.decl().name().endswith('encode'):
        # the output of an encoder is ascii: every charset used reads it alike
        return Sym('str', z3.Function('base64.text', BytesS, SS)(t))
    if isinstance(enc, str) and enc.lower() in PIECEWISE:
        out = []
        for x in parts_of(z3.simplify(t)):
            if z3.is_string_value(x) and all(ord(c) < 128 for c in pystr(x)):
                out.append(x)
            elif z3.is_app(x) and x.decl().name() == 'str.encode' and x.arg(0).eq(st(enc)):
                out.append(x.arg(1))
            elif z3.is_app(x) and x.decl().name().startswith('base64.') and x.decl().name().endswith('encode'):
                out.append(z3.Function('base64.text', BytesS, SS)(x))
            elif digits_of(x) or is_int_str(x) or (z3.is_app(x) and x.decl().name() in ('uuid.hex', 'uuid.text')):
                out.append(x)
            else:
                out = None
                break
        if out:
            return join_parts(out)
    ok = z3.Function('bytes.decodable', SS, BytesS, z3.BoolSort())(st(enc), t)
    if not C.branch(ok):
        raise prog(UnicodeDecodeError('utf-8', b'', 0, 1, 'symbolic'))
    return Sym('str', z3.Function('bytes.decode', SS, BytesS, SS)(st(enc), t))


def repeat(s, n):
    if isinstance(s, str) and s == '':
        return ''
    n = norm(n)
    if isinstance(n, int):
        out = ''
        for _ in range(max(0, n)):
            out = cat(out, s)
        return out
    r = C.fresh('str', 'rep')
    nt = num(n)[0]
    ln = z3.Length(st(s))
    C.fact(z3.Length(r) == z3.If(nt > 0, nt * ln, z3.IntVal(0)))
    if isinstance(s, str) and len(s) == 1:
        C.fact(z3.InRe(r, z3.Star(z3.Re(zstr(s)))))
    return Sym('str', r)


def bytes_arith(op, a, b):
    if op == '+':
        if isinstance(a, Sym) and a.k != 'bytes' or isinstance(b, Sym) and b.k != 'bytes':
            raise prog(TypeError("can't concat"))
        return mkbytes(z3.Concat(by(a), by(b)))
    raise Unsupported('bytes operator')


def by(v):
    if isinstance(v, Sym):
        return v.t
    return zstr(v.decode('latin-1'))


def mkbytes(t):
    t = z3.simplify(t)
    return pystr(t).encode('latin-1') if z3.is_string_value(t) else Sym('bytes', t)


# -- str() / format -------------------------------------------------------------
def to_str(v):
    v = norm(v)
    if isinstance(v, str):
        return v
    if isinstance(v, Sym):
        if v.k == 'str':
            return v
        if v.k == 'int':
            t = v.t
            if z3.is_app(t) and t.decl().name() == 'py.int':
                pass
            return mk('str', int_str(t))
        if v.k == 'bool':
            return mk('str', z3.If(v.t, zstr('True'), zstr('False')))
        if v.k == 'real':
            return Sym('str', z3.Function('str.of_real', z3.RealSort(), SS)(v.t))
        if v.k == 'opq':
            return Sym('str', z3.Function('str.of_opq', Val, SS)(box(v)))
        if v.k == 'bytes':
            return Sym('str', z3.Function('str.of_bytes', BytesS, SS)(v.t))
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    if isinstance(v, (PyList, PyDict)) and type(v).__str__ is object.__str__:
        # structured value: equal contents print equally
        return struct_str(v)
    if isinstance(v, Obj):
        if type(v).__str__ is not object.__str__:
            return type(v).__str__(v)
        if type(v).__repr__ is not object.__repr__:
            return type(v).__repr__(v)
        return Sym('str', z3.Function('str.of_opq', Val, SS)(box(v)))
    if isinstance(v, tuple):
        return struct_str(v)
    try:
        return str(v)
    except Exception as e:
        raise prog(e)


class NotIn(object):
    def __init__(self, chars):
        self.chars = chars

    def __contains__(self, ch):
        return ch not in self.chars


CHARFREE['str.of_int'] = NotIn('-0123456789')


def int_str(t):
    """decimal representation"""
    if z3.is_int_value(t):
        return zstr(str(t.as_long()))
    if z3.is_app(t) and t.decl().name() == 'py.int':
        pass
    r = z3.Function('str.of_int', z3.IntSort(), SS)(t)
    C.fact(z3.Function('py.int', SS, z3.IntSort())(r) == t)
    C.fact(z3.Function('py.isint', SS, z3.BoolSort())(r))
    C.fact(z3.Length(r) > 0)
    C.fact(z3.If(t >= 0, r == z3.IntToStr(t), r == z3.Concat(zstr('-'), z3.IntToStr(-t))))
    return r



def struct_str(v):
    from .rtl import native_of
    n = native_of(v)
    if n is not None:
        return str(n[0])
    for o, r in memo_lists('strof'):
        if o is v:
            return r
        if type(o) is type(v) and not isinstance(v, tuple):
            k = 'list' if isinstance(v, PyList) else 'dict'
            if prove_same_content(k, o, v.vc_c):
                return r
    r = Sym('str', C.fresh('str', 'strof'))
    memo_add('strof', (v.vc_c if not isinstance(v, tuple) else v, r))
    return r


def fmt_parts(fmt):
    return list(_string.Formatter().parse(fmt))


def s_format(s, *a, **k):
    a = [norm(x) for x in a]
    if isinstance(s, Sym):
        return fmt_symbolic(s, a, k)
    out = ''
    auto = 0
    for lit, field, spec, conv in fmt_parts(s):
        out = cat(out, lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        if field.isdigit():
            try:
                v = a[int(field)]
            except IndexError as e:
                raise prog(e)
        elif field.isidentifier() or True:
            head = field.split('.')[0].split('[')[0]
            if head != field:
                v = k[head] if not head.isdigit() else a[int(head)]
                rest = field[len(head):]
                if rest.startswith('.') and rest[1:].isidentifier():
                    from .rtl import G
                    v = G(v, rest[1:])
                else:
                    raise Unsupported('format field ' + field)
            else:
                if field not in k:
                    raise prog(KeyError(field))
                v = k[field]
        out = cat(out, fmt_value(v, spec, conv))
    return out


def fmt_value(v, spec, conv):
    v = norm(v)
    if conv == 'r':
        v = to_repr(v)
    elif conv == 's':
        v = to_str(v)
    if spec:
        if not issym(v) and not isinstance(v, Obj):
            try:
                return format(v, spec)
            except Exception as e:
                raise prog(e)
        if isinstance(v, Sym) and v.k in ('int', 'str'):
            m = memo_get(('fmt', spec, v.t.get_id()))
            return Sym('str', uf('fmt:' + spec, [v], 'str'))
        raise Unsupported('format spec')
    return to_str(v)


def to_repr(v):
    v = norm(v)
    if isinstance(v, Sym):
        if v.k == 'str':
            return Sym('str', uf('py.repr', [v], 'str'))
        return to_str(v)
    if isinstance(v, Obj):
        if type(v).__repr__ is not object.__repr__:
            return type(v).__repr__(v)
        return struct_str(v) if isinstance(v, (PyList, PyDict)) else Sym('str', z3.Function('str.of_opq', Val, SS)(box(v)))
    if isinstance(v, tuple):
        return struct_str(v)
    return repr(v)


def fmt_symbolic(s, a, k):
    """template is symbolic: an uninterpreted function of template and arguments"""
    from .vcsym import uheap
    return uheap('str.format', [s, tuple(a), k], 'str')


def percent(s, args):
    if isinstance(s, Sym):
        raise Unsupported('symbolic %% template')
    if isinstance(args, PyDict):
        raise Unsupported('%% with a mapping')
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c != '%':
            out = cat(out, c)
            i += 1
            continue
        j = i + 1
        while j < len(s) and s[j] in '0123456789.-+ #':
            j += 1
        spec = s[i + 1:j]
        conv = s[j]
        i = j + 1
        if conv == '%':
            out = cat(out, '%')
            continue
        if not args:
            raise prog(TypeError('not enough arguments for format string'))
        v = norm(args.pop(0))
        if not issym(v) and not isinstance(v, (Obj, tuple)):
            try:
                out = cat(out, ('%' + spec + conv) % (v,))
            except Exception as e:
                raise prog(e)
            continue
        if spec and conv == 'd' and spec[0] == '0' and spec[1:].isdigit() and isinstance(v, Sym) and v.k == 'int':
            w = int(spec[1:])
            if valid(z3.And(v.t >= 0, v.t < 10 ** w)):
                out = cat(out, Sym('str', digits(v.t, w)))
                continue
        if spec:
            raise Unsupported('%% format spec')
        if conv in 'di':
            if kind(v) not in NUM:
                raise prog(TypeError('%d format: a number is required'))
            if kind(v) == 'real':
                raise Unsupported('%d of a real')
        out = cat(out, to_repr(v) if conv == 'r' else to_str(v))
    if args:
        raise prog(TypeError('not all arguments converted during string formatting'))
    return out


def s_just(left):
    def f(s, width, fill=' '):
        if not isinstance(width, int) or width > 32 or not isinstance(fill, str):
            raise Unsupported('padding to an unknown or large width')
        if len(fill) != 1:
            raise prog(TypeError('The fill character must be exactly one character long'))
        t = st(s)
        if width <= 0 or C.branch(z3.Length(t) >= width):
            return s
        for n in range(width):
            if n == width - 1 or C.branch(z3.Length(t) == n):
                if n == width - 1:
                    C.fact(z3.Length(t) == n)
                pad = st(fill * (width - n))
                return mk('str', z3.Concat(t, pad) if left else z3.Concat(pad, t))
    return f


METHODS = {
    'replace': s_replace, 'split': s_split, 'rsplit': s_rsplit, 'join': s_join, 'startswith': s_startswith,
    'endswith': s_endswith, 'find': s_find, 'index': s_index, 'lower': s_case('lower'), 'upper': s_case('upper'),
    'title': s_case('title'), 'strip': s_generic('strip', 'str'), 'lstrip': s_generic('lstrip', 'str'),
    'rstrip': s_generic('rstrip', 'str'), 'capitalize': s_case('capitalize'), 'swapcase': s_case('swapcase'),
    'isdigit': s_generic('isdigit', 'bool'), 'isalpha': s_generic('isalpha', 'bool'),
    'isalnum': s_generic('isalnum', 'bool'), 'isspace': s_generic('isspace', 'bool'),
    'isupper': s_generic('isupper', 'bool'), 'islower': s_generic('islower', 'bool'),
    'format': s_format, 'encode': s_encode, 'partition': s_partition, 'rpartition': s_rpartition,
    'count': s_generic('count', 'int'), 'rfind': s_rfind, 'zfill': s_generic('zfill', 'str'),
    'casefold': s_case('lower'), 'ljust': s_just(True), 'rjust': s_just(False),
}


class SMethod(object):
    __slots__ = ('s', 'name')

    def __init__(self, s, name):
        self.s = s
        self.name = name

    def __call__(self, *a, **k):
        s = self.s
        if isinstance(s, str) and not k and not any(isinstance(x, (Sym, Lazy, Obj)) for x in a) \
                and not any(isinstance(x, tuple) and any(isinstance(y, (Sym, Lazy, Obj)) for y in x) for x in a):
            from .rtl import imp
            try:
                return imp(getattr(s, self.name)(*a))
            except Exception as e:
                raise prog(e)
        m = METHODS.get(self.name)
        if m is None:
            raise Unsupported('str.%s on symbolic values' % self.name)
        return m(s, *[norm(x) for x in a], **k)


def bytes_runs(segs):
    """the same bytes, every run of known pieces as one"""
    from .coll import CSeg, CPath
    from .ops import kind
    out, run = [], []

    def flush():
        if run:
            out.append(Items((mkbytes(run[0] if len(run) == 1 else z3.Concat(*run)),)))
            del run[:]
    for s in segs:
        if isinstance(s, Items):
            for v in s.vals:
                v = norm(v)
                if kind(v) not in ('bytes',) and not isinstance(v, bytes):
                    raise prog(TypeError('a bytes-like object is required'))
                run.append(by(v))
        elif isinstance(s, CSeg) and s.extra is None:
            flush()
            out.append(CSeg(s.space, s.g, [CPath(p.conds, p.skolems, bytes_runs(p.outs), p.owned) for p in s.paths]))
        else:
            raise Unsupported('bytes of this collection')
    flush()
    return tuple(out)


def b_join(sep, it):
    from .rtl import segs_of
    if sep != b'':
        raise Unsupported('join of bytes with a separator')
    out = []
    for s in bytes_runs(segs_of(it)):
        if isinstance(s, Items):
            out.append(by(s.vals[0]))
            continue
        for o, r in memo_lists('bytesjoins'):
            if o is s or prove_same_content('list', (o,), (s,)):
                break
        else:
            r = C.fresh('bytes', 'bytesjoin')
            memo_add('bytesjoins', (s, r))
        out.append(r)
    if not out:
        return b''
    return mkbytes(out[0] if len(out) == 1 else z3.Concat(*out))


BMETHODS = {'decode': by_decode, 'join': b_join}


class BMethod(object):
    __slots__ = ('s', 'name')

    def __init__(self, s, name):
        self.s = s
        self.name = name

    def __call__(self, *a, **k):
        m = BMETHODS.get(self.name)
        if m is None:
            raise Unsupported('bytes.%s on symbolic values' % self.name)
        return m(self.s, *[norm(x) for x in a], **k)
