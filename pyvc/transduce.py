"""Decision procedure for chains of literal str.replace calls.

`s.replace(a, b)` with literal a (non empty) and b is a subsequential function.
A chain of them is represented by the composed transducer over the alphabet of
the characters that occur in any pattern plus one representative OTHER of every
remaining character (all of them behave alike: they are copied).  Equality of two
chains, and absence of a literal from every output, are decided exactly.
"""

OTHER = '\uFFFF'


def step_replace(a, b):
    """transducer of replace: (states, delta(q,c)->(q',out), final(q)->out); q = matched prefix length"""
    m = len(a)

    def delta(q, c):
        w = a[:q] + c
        if w == a:
            return 0, b
        # longest proper suffix of w that is a prefix of a
        for k in range(min(m - 1, len(w)), -1, -1):
            if k == 0 or w[len(w) - k:] == a[:k]:
                # characters before the kept suffix can no longer start a match
                return k, w[:len(w) - k]
        raise AssertionError

    def final(q):
        return a[:q]
    return delta, final


class Chain(object):
    """composition of replaces, applied left to right"""

    def __init__(self, steps):
        self.steps = tuple(steps)
        self.tr = [step_replace(a, b) for a, b in self.steps]

    def start(self):
        return tuple(0 for _ in self.tr)

    def feed(self, st, word, i=0):
        st = list(st)
        for j in range(i, len(self.tr)):
            d = self.tr[j][0]
            out = []
            q = st[j]
            for c in word:
                q, o = d(q, c)
                out.append(o)
            st[j] = q
            word = ''.join(out)
        return tuple(st), word

    def delta(self, st, c):
        return self.feed(st, c)

    def final(self, st):
        out = ''
        # flush stage j, then feed what it emits to the later stages
        word = ''
        st = list(st)
        for j in range(len(self.tr)):
            d, f = self.tr[j]
            q = st[j]
            o = []
            for c in word:
                q, x = d(q, c)
                o.append(x)
            word = ''.join(o) + f(q)
        return word

    def alphabet(self):
        s = set()
        for a, b in self.steps:
            s |= set(a) | set(b)
        return s


def equivalent(c1, c2, extra='', limit=20000):
    """do two chains compute the same function on all strings?"""
    sigma = sorted(c1.alphabet() | c2.alphabet() | set(extra)) + [OTHER]
    seen = set()
    work = [(c1.start(), c2.start(), '', '')]
    while work:
        s1, s2, d1, d2 = work.pop()
        if (s1, s2, d1, d2) in seen:
            continue
        seen.add((s1, s2, d1, d2))
        if len(seen) > limit or max(len(d1), len(d2)) > 60:
            return False
        if d1 + c1.final(s1) != d2 + c2.final(s2):
            return False
        for c in sigma:
            n1, o1 = c1.delta(s1, c)
            n2, o2 = c2.delta(s2, c)
            w1, w2 = d1 + o1, d2 + o2
            k = 0
            while k < len(w1) and k < len(w2) and w1[k] == w2[k]:
                k += 1
            w1, w2 = w1[k:], w2[k:]
            if w1 and w2:
                return False
            work.append((n1, n2, w1, w2))
    return True


def difference(c1, c2, maxlen=8):
    """a shortest string on which the chains differ (bounded search), or None"""
    import itertools
    sigma = sorted(c1.alphabet() | c2.alphabet()) + ['x']
    for n in range(maxlen):
        for w in itertools.product(sigma, repeat=n):
            w = ''.join(w)
            if run(c1, w) != run(c2, w):
                return w
        if len(sigma) ** (n + 1) > 300000:
            return None
    return None


def run(c, w):
    for a, b in c.steps:
        w = w.replace(a, b)
    return w


def never_contains(c, lit, avoid=''):
    """no output of the chain contains lit (inputs range over strings without the characters in avoid)"""
    sigma = [x for x in sorted(c.alphabet() | set(lit)) if x not in avoid] + [OTHER]
    m = len(lit)

    def find(q, word):
        for ch in word:
            w = lit[:q] + ch
            if w == lit:
                return None
            for k in range(min(m - 1, len(w)), -1, -1):
                if k == 0 or w[len(w) - k:] == lit[:k]:
                    q = k
                    break
        return q
    seen = set()
    work = [(c.start(), 0)]
    while work:
        s, q = work.pop()
        if (s, q) in seen:
            continue
        seen.add((s, q))
        if find(q, c.final(s)) is None:
            return False
        for ch in sigma:
            n, o = c.delta(s, ch)
            q2 = find(q, o)
            if q2 is None:
                return False
            work.append((n, q2))
    return True
