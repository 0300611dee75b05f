from vc import *
from common import *
from pyswagger.primitives import Primitive

NAMES = ['a', 'b', 'c']
NAME = Str(ex=NAMES)
PLACES = ['path', 'query', 'header', 'formData']


def par(name, where, required, default, given):
    f = {'default': default} if given else {}
    return parameter(where, name=name, type='string', format='x', required=required, **f)


PAR = Build(par, NAME, OneOf(*PLACES), OneOf(True, False, None), Str(), Bool())


def op_of(ps):
    p, make = recorder(reading=False)
    return ready(operation(parameters=ps), p), make


def missing(ps, args):
    return any(x.required and x.name not in args and not x.is_set('default') for x in ps)


def value(x, args):
    return args[x.name] if x.name in args else x.default


def sent(x, args):
    return x.name in args or x.is_set('default')


@harness('accepted', 'C06', inputs={'ps': ListOf(PAR), 'args': DictOf(Str(), keys=NAMES)}, covers=['ok', 'missing', 'unknown'])
def accepted(ps, args):
    assume('self' not in args)
    op, make = op_of(ps)
    r = outcome(lambda: op(**args))
    if missing(ps, args):
        cover('missing')
        ensure(not r.ok, 'a missing required argument is rejected')
        ensure(isinstance(r.exc, ValueError), 'by a value error')
    elif any(all(x.name != k for x in ps) for k in args):
        cover('unknown')
        ensure(not r.ok, 'an argument that is not declared is rejected')
        ensure(isinstance(r.exc, ValueError), 'by a value error')
    else:
        cover('ok')
        ensure(r.ok, 'anything else is accepted')


@harness('placed', 'C06', inputs={'ps': ListOf(PAR), 'args': DictOf(Str(), keys=NAMES)}, covers=['ok'])
def placed(ps, args):
    assume('self' not in args)
    op, make = op_of(ps)
    r = outcome(lambda: op(**args))
    assume(r.ok)
    cover('ok')
    got = r.val[0]._p
    for w in ['query', 'formData']:
        ensure_same(list(got[w]), [(x.name, str(make(value(x, args)))) for x in ps if getattr(x, 'in') == w and sent(x, args)], 'one pair per argument declared there, in order')
    for w in ['path', 'header']:
        ensure_same(got[w], {x.name: str(make(value(x, args))) for x in ps if getattr(x, 'in') == w and sent(x, args)}, 'one entry per argument declared there')
    ensure(len(got['body']) == 0 and len(got['file']) == 0, 'nothing anywhere else')


SEP = {'csv': ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|'}


def arr(name, where, fmt):
    return parameter(where, name=name, type='array', collectionFormat=fmt, items=items(type='string', format='x'))


@harness('expanded', 'C06', inputs={'n': NAME, 'w': OneOf('query', 'formData'), 'v': ListOf(Scalar('int', 'str')), 'm': NAME, 'u': Str()})
def expanded(n, w, v, m, u):
    assume(n != m)
    assume(n != 'self')
    assume(m != 'self')
    op, make = op_of([arr(n, w, 'multi'), par(m, w, True, None, False)])
    r = op(**{n: v, m: u})[0]
    ensure_same(list(r._p[w]), [(n, str(make(x))) for x in v] + [(m, str(make(u)))], 'one entry per item, in order')
    ensure(len(r._p['path']) == 0 and len(r._p['header']) == 0 and len(r.files) == 0, 'nothing anywhere else')
    ensure(len(r._p['formData' if w == 'query' else 'query']) == 0, 'nothing anywhere else')


@harness('joined', 'C06', inputs={'n': NAME, 'w': OneOf(*PLACES), 'f': OneOf('csv', 'ssv', 'tsv', 'pipes'), 'v': ListOf(Scalar('int', 'str'))})
def joined(n, w, f, v):
    assume(n != 'self')
    op, make = op_of([arr(n, w, f)])
    t = SEP[f].join([str(make(x)) for x in v])
    r = op(**{n: v})[0]
    if w in ['query', 'formData']:
        ensure_same(list(r._p[w]), [(n, t)], 'one entry, joined')
    else:
        ensure_same(r._p[w], {n: t}, 'one entry, joined')


@harness('body', 'C06', inputs={'n': NAME, 'k': NAME, 'v': Scalar('str', 'int'), 'u': Str(), 'opt': Bool()}, covers=['given', 'not'])
def body(n, k, v, u, opt):
    assume(n != k)
    assume(n != 'self')
    assume(k != 'self')
    op, make = op_of([par(k, 'query', True, None, False), parameter('body', name=n, required=False, schema=schema(type='string', format='x'))])
    args = {k: u}
    if opt:
        args[n] = v
    p = op(**args)[0]._p
    if opt:
        cover('given')
        ensure_same(p['body'], {n: make(v)}, 'the body is the value built by its schema')
    else:
        cover('not')
        ensure(len(p['body']) == 0, 'no body')
    ensure_same(list(p['query']), [(k, str(make(u)))], 'the others stay where they are')
    ensure(len(p['path']) == 0 and len(p['header']) == 0 and len(p['file']) == 0 and len(p['formData']) == 0, 'nothing anywhere else')


@harness('body_object', 'C06', inputs={'v': Rec({}, {'a': Int(), 'b': Scalar('str')}), 'd': Int()})
def body_object(v, d):
    s = schema(type='object', properties={'a': schema(type='integer', default=d), 'b': schema(type='string', format='x')})
    p, make = recorder(reading=False)
    op = ready(operation(parameters=[parameter('body', name='body', required=True, schema=s)]), p)
    got = op(body=v)[0]._p['body']['body']
    ensure_same(dict(got), dict([('a', v['a'] if 'a' in v else d)] + ([('b', make(v['b']))] if 'b' in v else [])), 'the object built by the schema of the body')


@harness('file', 'C06', inputs={'n': NAME, 'k': NAME, 'f': Str(nonempty=True), 't': Str(), 'u': Str(), 'many': Bool(), 'h': Str()}, covers=['one', 'many'])
def file(n, k, f, t, u, many, h):
    assume(n != k)
    assume(n != 'self')
    assume(k != 'self')
    one = parameter('formData', name=n, type='file', required=True)
    lst = parameter('formData', name=n, type='array', collectionFormat='multi', items=items(type='file'))
    op, make = op_of([lst if many else one, par(k, 'formData', True, None, False)])
    fv = {'filename': f, 'header': {'Content-Type': t}}
    gv = {'data': h}
    r = op(**{n: [fv, gv] if many else fv, k: u})[0]
    got = r.files[n]
    ensure(len(r.files) == 1, 'one file argument')
    ensure_same(list(r._p['formData']), [(k, str(make(u)))], 'files are not form fields')
    if many:
        cover('many')
        ensure(len(got) == 2, 'every file')
        ensure(got[1].data == h and got[1].filename == '', 'in order')
        got = got[0]
    else:
        cover('one')
    ensure(got.filename == f, 'the file with its name')
    ensure_same(got.header, {'Content-Type': t}, 'and headers')
    ensure(got.data is None, 'read later')
    ensure(not outcome(lambda: op(**{k: u})).ok or many, 'a missing required file is rejected')
    ensure(not outcome(lambda: op(**{n: {}, k: u})).ok or many, 'a file without name and content is rejected')


@harness('final', 'C06', inputs={'n': NAME, 'm': NAME, 'v': Str(), 'w': OneOf(*PLACES)})
def final_(n, m, v, w):
    assume(n != m)
    assume(n != 'self')
    assume(m != 'self')
    p = par(m, w, True, None, False)
    ref = parameter(None, final=par(n, w, True, None, False), **{'$ref': 'x'})
    op, make = op_of([ref])
    r = op(**{n: v})[0]
    ensure_same(dict(r._p[w]), {n: str(make(v))}, 'a reference to a parameter counts as that parameter')
    ensure(not outcome(lambda: op(**{m: v})).ok, 'other names are not declared')


@harness('typed', 'C06', inputs={'n': NAME, 'w': OneOf(*PLACES), 'v': Int(), 'm': Int()}, covers=['ok', 'not'])
def typed(n, w, v, m):
    assume(n != 'self')
    op = ready(operation(parameters=[parameter(w, name=n, type='integer', minimum=m)]), Primitive())
    r = outcome(lambda: op(**{n: v}))
    if v >= m:
        cover('ok')
        ensure_same(dict(r.val[0]._p[w]), {n: str(v)}, 'the text of the value')
    else:
        cover('not')
        ensure(not r.ok, 'a value that its parameter does not allow is rejected')


@harness('independent', 'C06', inputs={'a': Str(), 'b': Str()})
def independent(a, b):
    op, make = op_of([par('q', 'query', True, None, False), par('h', 'header', False, None, False)])
    r, s = op(q=a, h=a)
    t, u = op(q=b)
    ensure_same(list(r.query), [('q', str(make(a)))], 'a later call does not touch an earlier request')
    ensure_same(r._p['header'], {'h': str(make(a))}, 'a later call does not touch an earlier request')
    ensure_same(list(t.query), [('q', str(make(b)))], 'each call has its own arguments')
    ensure(len(t._p['header']) == 0, 'each call has its own arguments')
