"""Python regular expressions as z3 regular languages (the part without back references, look-around or lazy matching)."""
import re
import re._parser as sre
import re._constants as K
import z3
from .core import Unsupported, zstr, pystr

MAXCH = 0x2ffff


def ch(o):
    return zstr(chr(o))


def ranges(rs):
    out = []
    for a, b in rs:
        if a == b:
            out.append(z3.Re(ch(a)))
        else:
            out.append(z3.Range(ch(a), ch(b)))
    if not out:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    return out[0] if len(out) == 1 else z3.Union(*out)


def norm_ranges(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def complement(rs):
    out, at = [], 0
    for a, b in norm_ranges(rs):
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= MAXCH:
        out.append((at, MAXCH))
    return out


def of(chars):
    return ranges(norm_ranges([(ord(c), ord(c)) for c in chars]))


def without(chars):
    return ranges(complement([(ord(c), ord(c)) for c in chars]))


def any_char():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def everything():
    return z3.Star(any_char())


def digit_ranges():
    import unicodedata
    if not _digits:
        _digits.extend(norm_ranges([(c, c) for c in range(MAXCH + 1) if unicodedata.category(chr(c)) == 'Nd']))
    return list(_digits)


_digits = []


def digits_alike(pattern):
    """does the pattern treat all of 0..9 the same?"""
    try:
        return _alike(sre.parse(pattern))
    except Unsupported:
        return False


def _alike(p):
    D = set(range(48, 58))
    for op, v in p:
        if op in (K.LITERAL, K.NOT_LITERAL):
            if v in D:
                return False
        elif op is K.IN:
            for o, w in v:
                if o is K.LITERAL and w in D:
                    return False
                if o is K.RANGE:
                    r = set(range(w[0], w[1] + 1)) & D if w[1] < 0x3000 else D
                    if r and r != D:
                        return False
                if o not in (K.LITERAL, K.RANGE, K.CATEGORY, K.NEGATE):
                    return False
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            if not _alike(v[2]):
                return False
        elif op is K.SUBPATTERN:
            if not _alike(v[3]):
                return False
        elif op is K.BRANCH:
            if not all(_alike(x) for x in v[1]):
                return False
        elif op not in (K.ANY, K.AT):
            return False
    return True


CATS = {K.CATEGORY_SPACE: [(9, 13), (28, 32)], K.CATEGORY_WORD: None, K.CATEGORY_DIGIT: None}


def in_set(items):
    neg = False
    rs = []
    for op, v in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            rs.append((v, v))
        elif op is K.RANGE:
            rs.append(v)
        elif op is K.CATEGORY and v is K.CATEGORY_DIGIT:
            rs.extend(digit_ranges())
        else:
            raise Unsupported('regular expression class')
    return norm_ranges(rs), neg


def conv(p):
    out = []
    for op, v in p:
        if op is K.LITERAL:
            out.append(z3.Re(ch(v)))
        elif op is K.NOT_LITERAL:
            out.append(ranges(complement([(v, v)])))
        elif op is K.IN:
            rs, neg = in_set(v)
            out.append(ranges(complement(rs) if neg else rs))
        elif op is K.MAX_REPEAT:
            lo, hi, sub = v
            r = conv(sub)
            if hi is K.MAXREPEAT:
                hi = None
            if lo == 0 and hi is None:
                out.append(z3.Star(r))
            elif lo == 1 and hi is None:
                out.append(z3.Plus(r))
            elif hi is None:
                out.append(z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            elif lo == 0 and hi == 1:
                out.append(z3.Option(r))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif op is K.SUBPATTERN:
            if v[1] or v[2]:
                raise Unsupported('regular expression flags')
            out.append(conv(v[3]))
        elif op is K.BRANCH:
            out.append(z3.Union(*[conv(x) for x in v[1]]))
        else:
            raise Unsupported('regular expression operator %s' % (op,))
    if not out:
        return z3.Re(zstr(''))
    return out[0] if len(out) == 1 else z3.Concat(*out)


def language(pattern, flags=0):
    """(language, anchored at the start) of a pattern, or Unsupported"""
    if flags:
        raise Unsupported('regular expression flags')
    p = sre.parse(pattern)
    if p.state.flags & ~re.UNICODE:
        raise Unsupported('regular expression flags')
    items = strip_start(list(p))
    return conv(items)


def ends_anchored(pattern):
    """the pattern without a final \\Z, or None"""
    p = list(sre.parse(pattern))
    if p and p[-1][0] is K.AT and p[-1][1] is K.AT_END_STRING and pattern.endswith('\\Z'):
        return pattern[:-2]
    return None


def strip_start(items):
    """without a leading ^, also inside of a leading group"""
    if items and items[0][0] is K.AT and items[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
        return strip_start(items[1:])
    if items and items[0][0] is K.SUBPATTERN and not items[0][1][1] and not items[0][1][2]:
        sub = strip_start(list(items[0][1][3]))
        v = items[0][1]
        return [(K.SUBPATTERN, (v[0], v[1], v[2], sub))] + items[1:]
    return items


def single_class(pattern):
    """is the pattern one greedy repetition of a class (so that a match is as long as possible)?"""
    p = list(sre.parse(pattern))
    return len(p) == 1 and p[0][0] is K.MAX_REPEAT and len(list(p[0][1][2])) == 1 and list(p[0][1][2])[0][0] in (K.LITERAL, K.IN, K.NOT_LITERAL) \
        and p[0][1][1] is K.MAXREPEAT


# -- automata: which of the languages already assumed decide a new one ------------------------------------------------
class NFA(object):
    def __init__(self):
        self.eps = []           # state -> [state]
        self.step = []          # state -> [(ranges, state)]

    def new(self):
        self.eps.append([])
        self.step.append([])
        return len(self.eps) - 1


def build(pattern, how):
    """automaton of the texts a pattern matches from the start (how: 'match' or 'fullmatch')"""
    short = ends_anchored(pattern)
    if short is not None:
        pattern, how = short, 'fullmatch'
    language(pattern)           # refuses what is not covered
    a = NFA()
    s = a.new()
    e = _nfa(a, strip_start(list(sre.parse(pattern))), s)
    if how == 'match':
        a.step[e].append(([(0, MAXCH)], e))
    a.start, a.end = s, e
    return a


def _nfa(a, p, s):
    for op, v in p:
        if op is K.LITERAL:
            s = _edge(a, s, [(v, v)])
        elif op is K.NOT_LITERAL:
            s = _edge(a, s, complement([(v, v)]))
        elif op is K.IN:
            rs, neg = in_set(v)
            s = _edge(a, s, complement(rs) if neg else rs)
        elif op is K.MAX_REPEAT:
            lo, hi, sub = v
            for _ in range(lo):
                s = _nfa(a, sub, s)
            if hi is K.MAXREPEAT:
                n = a.new()
                a.eps[s].append(n)
                e = _nfa(a, sub, n)
                a.eps[e].append(n)
                s = n
            else:
                ends = [s]
                for _ in range(hi - lo):
                    s = _nfa(a, sub, s)
                    ends.append(s)
                n = a.new()
                for x in ends:
                    a.eps[x].append(n)
                s = n
        elif op is K.SUBPATTERN:
            s = _nfa(a, v[3], s)
        elif op is K.BRANCH:
            n = a.new()
            for x in v[1]:
                b = a.new()
                a.eps[s].append(b)
                a.eps[_nfa(a, x, b)].append(n)
            s = n
        else:
            raise Unsupported('regular expression operator %s' % (op,))
    return s


def _edge(a, s, rs):
    n = a.new()
    a.step[s].append((rs, n))
    return n


def _close(a, ss):
    todo, seen = list(ss), set(ss)
    while todo:
        for n in a.eps[todo.pop()]:
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return frozenset(seen)


def empty(langs, limit=20000):
    """no text is in every positive and in no negative of the languages [(automaton, polarity)]; False also when not found out"""
    cuts = {0}
    for a, _ in langs:
        for es in a.step:
            for rs, _n in es:
                for lo, hi in rs:
                    cuts.add(lo)
                    if hi < MAXCH:
                        cuts.add(hi + 1)
    cuts = sorted(cuts)
    # one representative per class of characters no language tells apart
    reps = {}
    for c in cuts:
        sig = tuple(tuple(any(lo <= c <= hi for lo, hi in rs) for es in a.step for rs, _n in es) for a, _ in langs)
        reps.setdefault(sig, c)
    chars = list(reps.values())
    start = tuple(_close(a, [a.start]) for a, _ in langs)
    seen, todo = {start}, [start]
    while todo:
        st = todo.pop()
        if all((a.end in s) == pol for (a, pol), s in zip(langs, st)):
            return False
        for c in chars:
            nx = tuple(_close(a, [n for q in s for rs, n in a.step[q] if any(lo <= c <= hi for lo, hi in rs)]) for (a, _), s in zip(langs, st))
            if any(pol and not s for (a, pol), s in zip(langs, nx)):
                continue
            if nx not in seen:
                seen.add(nx)
                todo.append(nx)
                if len(seen) > limit:
                    return False
    return True
