"""urllib.parse.urlparse of strings built from known pieces"""
import urllib.parse as up
import z3
from .core import C, Sym, zstr, pystr
from . import strs
from .strs import parts_of, atom_free, join_parts, struct_partition, st

C0 = ''.join(chr(i) for i in range(33))
PARAMS = ('', 'ftp', 'hdl', 'prospero', 'http', 'imap', 'https', 'shttp', 'rtsp', 'rtspu', 'sip', 'sips', 'mms', 'sftp', 'tel')
NETLOC = ('', 'file', 'ftp', 'git', 'git+ssh', 'gopher', 'http', 'https', 'imap', 'mms', 'nfs', 'nntp', 'prospero', 'rsync', 'rtsp', 'rtspu',
          'sftp', 'shttp', 'snews', 'svn', 'svn+ssh', 'telnet', 'wais', 'ws', 'wss')


def lit(x):
    return pystr(x) if z3.is_string_value(x) else None


def free(x, chars):
    return all(atom_free(x, c) for c in chars)


def is_ascii(x):
    for y, l in strs.memo_lists('free'):
        if isinstance(l, strs.NotIn) and y.eq(x) and all(ord(c) < 128 for c in l.chars):
            return True
    return False


def begins(ps, pre):
    """does the concatenation start with the literal? (decides by cases whether parts are empty); None if unknown"""
    n = 0
    for x in ps:
        v = lit(x)
        if v is None:
            if strs.solid(x, pre[n]):
                return False
            if not all(free(x, c) for c in set(pre)):
                return None
            if not C.branch(x == zstr('')):
                return False
            continue
        for c in v:
            if c != pre[n]:
                return False
            n += 1
            if n == len(pre):
                return True
    return False


def drop(ps, n):
    """without the first n characters, which are literal"""
    out = []
    for x in ps:
        v = lit(x)
        if n and v is None:
            continue        # known to be empty here
        if n:
            k = min(n, len(v))
            n -= k
            v = v[k:]
            if v:
                out.append(zstr(v))
            continue
        out.append(x)
    return out


def cut(ps, chars):
    """(before, from there on) of the first of the characters; () when there is none; None if unknown"""
    for i, x in enumerate(ps):
        v = lit(x)
        if v is None:
            if not free(x, chars):
                return None
            continue
        at = [v.find(c) for c in chars if c in v]
        if at:
            a = min(at)
            return ps[:i] + ([zstr(v[:a])] if a else []), [zstr(v[a:])] + ps[i + 1:]
    return ()


def parse(t):
    """the six components of a url, or None when its structure is not known"""
    ps = parts_of(z3.simplify(t))
    if len(ps) == 1 and lit(ps[0]) is not None:
        return tuple(up.urlparse(lit(ps[0])))
    for x in ps:
        v = lit(x)
        if v is None:
            if not free(x, '\t\r\n'):
                return None
        elif any(c in v for c in '\t\r\n'):
            return None
    for x in ps:
        v = lit(x)
        if v is not None:
            if v and v[0] in C0:
                return None
            break
        if not free(x, C0):
            return None
    # scheme
    scheme = ''
    c = cut(ps, ':')
    if c is None:
        # some character before it that no scheme has
        for x in ps:
            v = lit(x)
            if v is None:
                if not free(x, ':'):
                    return None
            elif ':' in v or any(k not in up.scheme_chars for k in v):
                if any(k not in up.scheme_chars for k in v.partition(':')[0]):
                    break
                return None
        else:
            return None
    elif c:
        pre = ''.join(lit(x) or '' for x in c[0])
        if all(lit(x) is not None for x in c[0]):
            if pre and all(k in up.scheme_chars for k in pre):
                if not pre[0].isalpha():
                    return None
                scheme = pre.lower()
                ps = drop(c[1], 1)
        elif all(k in up.scheme_chars for k in pre):
            return None
    netloc = []
    b = begins(ps, '//')
    if b is None:
        return None
    if b:
        ps = drop(ps, 2)
        c = cut(ps, '/?#')
        if c is None:
            return None
        netloc, ps = c if c else (ps, [])
        for x in netloc:
            v = lit(x)
            if v is None:
                if not free(x, '[]') or not is_ascii(x):
                    return None
            elif any(k in '[]' or ord(k) > 127 for k in v):
                return None
    frag = query = []
    c = cut(ps, '#')
    if c is None:
        return None
    if c:
        ps, frag = c[0], drop(c[1], 1)
    c = cut(ps, '?')
    if c is None:
        return None
    if c:
        ps, query = c[0], drop(c[1], 1)
    if scheme in PARAMS and cut(ps, ';') != ():
        return None
    return (scheme, join_parts(netloc), join_parts(ps), '', join_parts(query), join_parts(frag))
