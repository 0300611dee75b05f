from vc import *
from common import *
from pyswagger import utils
from pyswagger.scanner.v2_0.norm_ref import NormalizeRef

# pieces of addresses
SPECIAL = '/?#;:[]%' + ''.join(chr(i) for i in range(33))
SEG = Str(no=SPECIAL, nonempty=True, ex=['api', 'v1', 'swagger.json', '.', '..', '...', '.x', 'a..b'])
HOSTS = Str(nonempty=True, only='abcdefghijklmnopqrstuvwxyz0123456789.-', ex=['h', 'test.com'])
PTR = Str(no='\t\r\n', ex=['/definitions/User', '/definitions/a~1b', '/a#b', ''])
SCHEME = OneOf('http', 'https', 'file')


@harness('local', 'C02', inputs={'jp': PTR, 'url': Str(nonempty=True)})
def local(jp, url):
    r = utils.normalize_jr('#' + jp, url)
    ensure(r == (url + '#' + jp if jp else url), 'a local reference gets the address of its document')


@harness('absolute', 'C02', inputs={'s': SCHEME, 'h': HOSTS, 'a': SEG, 'b': SEG, 'jp': Opt(PTR), 'url': Opt(Str())})
def absolute(s, h, a, b, jp, url):
    u = s + '://' + h + '/' + a + '/' + b
    r = utils.normalize_jr(u if jp is None else u + '#' + jp, url)
    ensure(r == (u + '#' + jp if jp else u), 'an absolute reference keeps its address')


@harness('none', 'C02', inputs={'url': Opt(Str())})
def none(url):
    ensure(utils.normalize_jr(None, url) is None, 'no reference stays none')


def walked(segs):
    """the path left after removing dot segments, one step at a time"""
    out = []
    for s in segs:
        if s == '.':
            out = out
        elif s in ('..', '...'):
            out = out[:len(out) - 1] if len(out) > 0 else out
        else:
            out = out + [s]
    return out


def ext(a, b):
    return a + '.' + b


NAMED = Str(no=SPECIAL + '.', nonempty=True, ex=['api', 'v1', 'x'])
STEP = Union(OneOf('.', '..', '...'), Build(ext, NAMED, NAMED), NAMED)


def check_relative(at, folder, file, ref):
    url = '/'.join([at] + folder + [file])
    r = utils.normalize_jr('/'.join(ref), url)
    ensure(r == at + '/' + '/'.join(walked(folder + ref)), 'taken from the folder of the document, without dot segments')
    ensure(utils.normalize_jr(r, url) == r, 'normalising twice changes nothing')


@harness('relative', 'C02', inputs={'d0': NAMED, 'd1': NAMED, 'n': OneOf(0, 1, 2), 'file': NAMED, 'r0': STEP, 'r1': STEP, 'r2': NAMED, 'm': OneOf(1, 2, 3)},
         sizes='folders up to two deep, references of up to three segments')
def relative(d0, d1, n, file, r0, r1, r2, m):
    check_relative('http://h.io:80', [d0, d1][:n], file, [r0, r1, r2 + '.json'][3 - m:])


@harness('relative_file', 'C02', inputs={'d0': NAMED, 'n': OneOf(0, 1), 'file': NAMED, 'r0': STEP, 'r1': NAMED, 'm': OneOf(1, 2)},
         sizes='folders up to one deep, references of up to two segments')
def relative_file(d0, n, file, r0, r1, m):
    check_relative('file://', [d0][:n], file, [r0, r1][2 - m:])


@harness('folder', 'C02', inputs={'h': HOSTS, 'folder': ListOf(NAMED), 'ref': ListOf(NAMED, min=1), 'bare': Bool(), 'jp': Opt(PTR)}, covers=['bare', 'in'])
def folder_(h, folder, ref, bare, jp):
    text = '/'.join(ref)
    if bare:
        cover('bare')
        base, want = 'http://' + h, ref
    else:
        cover('in')
        base, want = '/'.join(['http://' + h] + folder) + '/', folder + ref
    r = utils.normalize_jr(text if jp is None else text + '#' + jp, base)
    ensure(r == 'http://' + h + '/' + '/'.join(want) + ('#' + jp if jp else ''), 'the address of a folder, or of a host')


@harness('rooted', 'C02', inputs={'h': HOSTS, 'd': NAMED, 'r0': STEP, 'r1': NAMED, 'jp': PTR})
def rooted(h, d, r0, r1, jp):
    r = utils.normalize_jr('/' + r0 + '/' + r1 + '#' + jp, 'http://' + h + '/' + d + '/swagger.json')
    ensure(r == 'http://' + h + '/' + '/'.join(walked([r0, r1])) + ('#' + jp if jp else ''), 'a path from the root is taken from the host')


@harness('plain_names', 'C02', inputs={'h': HOSTS, 'folder': ListOf(NAMED), 'file': NAMED, 'ref': ListOf(NAMED, min=1), 'jp': Opt(PTR)})
def plain_names(h, folder, file, ref, jp):
    text = '/'.join(ref)
    r = utils.normalize_jr(text if jp is None else text + '#' + jp, '/'.join(['http://' + h] + folder + [file]))
    ensure(r == 'http://' + h + '/' + '/'.join(folder + ref) + ('#' + jp if jp else ''), 'names without dots are taken from the folder as they are')


@harness('beside', 'C02', inputs={'h': HOSTS, 'd': NAMED, 'file': NAMED, 'n': NAMED, 'e': NAMED, 'jp': PTR})
def beside(h, d, file, n, e, jp):
    doc = 'https://' + h + '/' + d + '/' + file + '.json'
    want = 'https://' + h + '/' + d + '/' + n + '.' + e + ('#' + jp if jp else '')
    ensure(utils.normalize_jr(n + '.' + e + '#' + jp, doc) == want, 'a file beside the document')
    ensure(utils.normalize_jr('./' + n + '.' + e + '#' + jp, doc) == want, 'said with a dot')
    ensure(utils.normalize_jr('../' + d + '/' + n + '.' + e + '#' + jp, doc) == want, 'said with two dots')
    ensure(utils.normalize_jr(doc + '#' + jp, doc) == utils.normalize_jr('#' + jp, doc), 'the document itself')


@harness('split', 'C02', inputs={'s': OneOf('http', 'https', 'file'), 'h': HOSTS, 'a': SEG, 'b': SEG, 'q': Opt(Str(no='#\t\r\n', nonempty=True)), 'jp': Opt(Str(no='\t\r\n'))})
def split(s, h, a, b, q, jp):
    u = s + '://' + h + '/' + a + '/' + b + ('' if q is None else '?' + q)
    x, p = utils.jr_split(u if jp is None else u + '#' + jp)
    ensure(x == u, 'the address of the document')
    ensure(p == '#' + (jp or ''), 'and the pointer')
    r = utils.normalize_jr(u + '#' + (jp or ''), u)
    y, p = utils.jr_split(r)
    ensure(both(y == u, p == '#' + (jp or '')), 'also of normalised ones')


@harness('split_local', 'C02', inputs={'jp': Str(no='\t\r\n')})
def split_local(jp):
    x, p = utils.jr_split('#' + jp)
    ensure(both(x == '', p == '#' + jp), 'a local reference has no address')


@harness('parent', 'C02', inputs={'h': HOSTS, 'folder': ListOf(NAMED), 'x': NAMED, 'file': NAMED, 'ref': ListOf(NAMED, min=1), 'up': OneOf('..', '...', '.')})
def parent(h, folder, x, file, ref, up):
    r = utils.normalize_jr('/'.join([up] + ref), '/'.join(['http://' + h] + folder + [x, file]))
    want = folder + ref if up != '.' else folder + [x] + ref
    ensure(r == 'http://' + h + '/' + '/'.join(want), 'one folder up')


@harness('norm_ref', 'C02', inputs={'kind': OneOf('schema', 'parameter', 'response', 'path_item'), 'jp': Opt(Str(no='\t\r\n')), 'h': HOSTS, 't': Opt(Str())})
def norm_ref(kind, jp, h, t):
    url = 'http://' + h + '/swagger.json'
    ref = None if jp is None else '#/' + jp
    f = {'$ref': ref}
    if kind == 'schema':
        o = schema(type=t, **f)
    elif kind == 'parameter':
        o = parameter('query', type=t, name='n', **f)
    elif kind == 'response':
        o = response(description=t, **f)
    else:
        o = path_item(**f)
    visit(NormalizeRef(url), o, '#/x')
    ensure_same(getattr(o, '$ref'), None if ref is None else url + ref, 'the reference of the object is normalised')
    if kind == 'schema':
        ensure(same(o.type, t), 'the rest stays')
    elif kind == 'parameter':
        ensure(both(same(o.type, t), o.name == 'n'), 'the rest stays')
    elif kind == 'response':
        ensure(same(o.description, t), 'the rest stays')
    visit(NormalizeRef(url), o, '#/x')
    ensure_same(getattr(o, '$ref'), None if ref is None else url + ref, 'once')


@harness('dotted', 'C02', inputs={'h': HOSTS, 'd': NAMED, 'dots': OneOf('', '.', '..', '...', '....'), 'x': NAMED, 'tail': Str(no=SPECIAL, ex=['', '.', '..', '.x', '...']), 'n': NAMED})
def dotted(h, d, dots, x, tail, n):
    name = dots + x + tail
    r = utils.normalize_jr(name + '/' + n, 'http://' + h + '/' + d + '/swagger.json')
    ensure(r == 'http://' + h + '/' + d + '/' + name + '/' + n, 'only names that are nothing but dots are steps')
