import base64
import datetime
import random
import uuid
from vc import *
from common import *
from pyswagger.errs import ValidationError
from pyswagger.primitives import Primitive, Renderer
from pyswagger.primitives import render as rr

PRIM = Primitive()


def options(**k):
    o = Renderer.default()
    o.update(k)
    return o


def accepted(s, v):
    """the library itself takes this value when calling"""
    return outcome(s._prim_, v, PRIM, ctx=dict(read=False)).ok


L = Opt(Int())
MAX = 2 ** 31 - 1


def in_range(v, lo, elo, hi, ehi):
    return both(when(lo is not None, lambda: v > lo if elo else v >= lo), when(hi is not None, lambda: v < hi if ehi else v <= hi))


def when(c, f):
    return f() if c else True


def number(t, f, lo, elo, hi, ehi, m=None, **k):
    return schema(type=t, format=f, minimum=lo, exclusiveMinimum=elo, maximum=hi, exclusiveMaximum=ehi, multipleOf=m, **k)


X = OneOf(None, True, False)


@harness('integer', 'C18', inputs={'f': OneOf(None, 'int32', 'int64'), 'lo': Opt(Num()), 'elo': X, 'hi': Opt(Num()), 'ehi': X}, covers=['out'])
def integer(f, lo, elo, hi, ehi):
    s = number('integer', f, lo, elo, hi, ehi)
    r = outcome(Renderer().render, s)
    if r.ok:
        cover('out')
        ensure(kind_of(r.val) == 'int', 'an integer')
        ensure(in_range(r.val, lo, elo, hi, ehi), 'within the limits')
        ensure(accepted(s, r.val), 'accepted')
        width = 64 if f == 'int64' else 32
        if both(when(lo is not None, lambda: both(lo >= -2 ** (width - 1), lo < MAX)), when(hi is not None, lambda: both(hi < 2 ** (width - 1), hi > -MAX))):
            ensure(both(r.val >= -2 ** (width - 1), r.val < 2 ** (width - 1)), 'of the declared width, if the limits allow')
    else:
        ensure(isinstance(r.exc, ValueError) and lo is not None and hi is not None, 'only for limits without a value')


@harness('integer_found', 'C18', inputs={'f': OneOf(None, 'int32', 'int64'), 'lo': L, 'elo': X, 'hi': L, 'ehi': X, 'q': Int()})
def integer_found(f, lo, elo, hi, ehi, q):
    """whenever there is an integer within the limits, one is rendered"""
    assume(in_range(q, lo, elo, hi, ehi))
    ensure(outcome(Renderer().render, number('integer', f, lo, elo, hi, ehi)).ok, 'a value is found')


@harness('integer_multiple', 'C18', inputs={'lo': L, 'elo': X, 'hi': L, 'ehi': X, 'm': OneOf(1, 2, 3, 5, 10, 100)})
def integer_multiple(lo, elo, hi, ehi, m):
    s = number('integer', None, lo, elo, hi, ehi, m)
    r = outcome(Renderer().render, s)
    if r.ok:
        ensure(in_range(r.val, lo, elo, hi, ehi), 'within the limits')
        ensure(r.val % m == 0, 'a multiple')


@harness('integer_multiple_found', 'C18', inputs={'lo': L, 'elo': X, 'hi': L, 'ehi': X, 'm': OneOf(1, 2, 3, 5, 10, 100), 'q': Int()})
def integer_multiple_found(lo, elo, hi, ehi, m, q):
    assume(in_range(q * m, lo, elo, hi, ehi))
    # a limit that is not given is the one of 32 bits
    assume(lo is not None and hi is not None or both(q * m <= MAX, q * m >= -MAX))
    ensure(outcome(Renderer().render, number('integer', None, lo, elo, hi, ehi, m)).ok, 'a value is found')


FLIM = Opt(Num())
FAR = 2 ** 40


def near(*vs):
    """limits small enough for exact floats"""
    for v in vs:
        assume(v is None or both(v <= FAR, v >= -FAR))


@harness('number', 'C18', inputs={'f': OneOf(None, 'float', 'double'), 'lo': FLIM, 'elo': X, 'hi': FLIM, 'ehi': X})
def number_(f, lo, elo, hi, ehi):
    near(lo, hi)
    s = number('number', f, lo, elo, hi, ehi)
    r = outcome(Renderer().render, s)
    if r.ok:
        ensure(kind_of(r.val) == 'real', 'a number')
        ensure(in_range(r.val, lo, elo, hi, ehi), 'within the limits')
        ensure(accepted(s, r.val), 'accepted')
    else:
        ensure(isinstance(r.exc, ValueError) and lo is not None and hi is not None, 'only for limits without a value')
        ensure(lo > hi or (lo == hi and (elo or ehi)), 'that admit none')


@harness('number_multiple', 'C18', inputs={'lo': FLIM, 'elo': OneOf(None, True), 'hi': FLIM, 'ehi': OneOf(None, True), 'm': OneOf(1, 5, 0.25)})
def number_multiple(lo, elo, hi, ehi, m):
    near(lo, hi)
    s = number('number', None, lo, elo, hi, ehi, m)
    r = outcome(Renderer().render, s)
    if r.ok:
        ensure(in_range(r.val, lo, elo, hi, ehi), 'within the limits')
        ensure(r.val % m == 0, 'a multiple')


@harness('number_multiple_found', 'C18', inputs={'lo': FLIM, 'elo': OneOf(None, True), 'hi': FLIM, 'ehi': OneOf(None, True), 'm': OneOf(1, 5, 0.25), 'q': Int()})
def number_multiple_found(lo, elo, hi, ehi, m, q):
    compare_with(q)
    near(lo, hi)
    assume(in_range(q * m, lo, elo, hi, ehi))
    ensure(outcome(Renderer().render, number('number', None, lo, elo, hi, ehi, m)).ok, 'a value is found')


@harness('text', 'C18', inputs={'f': OneOf(None, '', 'password'), 'lo': Opt(Int(0)), 'hi': Opt(Int(0)), 'most': Int(0)})
def text(f, lo, hi, most):
    # long texts take long to make when the code runs natively
    assume(SYMBOLIC or ((lo or 0) <= 200 and (hi or 0) <= 200 and most <= 200))
    s = schema(type='string', format=f, minLength=lo, maxLength=hi)
    r = outcome(Renderer().render, s, options(max_str_length=most))
    if lo is not None and hi is not None and lo > hi:
        ensure(isinstance(r.exc, ValueError), 'no such text')
        return
    v = r.val
    ensure(kind_of(v) == 'str', 'a text')
    ensure(lo is None or len(v) >= lo, 'long enough')
    ensure(len(v) <= (hi if hi is not None else most if lo is None or lo < most else lo), 'not too long')
    ensure(accepted(s, v), 'accepted')


@harness('enumerated', 'C18', inputs={'w': Union(Tup(OneOf('string'), ListOf(Str(), min=1)), Tup(OneOf('integer', 'number'), ListOf(Int(), min=1)), Tup(OneOf('number'), ListOf(Num(), min=1)), Tup(OneOf('boolean'), ListOf(Bool(), min=1))), 'lo': Opt(Int()), 'f': OneOf(None)})
def enumerated(w, lo, f):
    """one of the enumerated values, whatever else the schema says"""
    t, values = w
    s = schema(type=t, format=f, enum=values, minLength=lo, minimum=lo)
    v = Renderer().render(s)
    ensure(any(same(v, x) for x in values), 'one of them')


@harness('boolean', 'C18', inputs={'f': OneOf(None, '')})
def boolean(f):
    v = Renderer().render(schema(type='boolean', format=f))
    ensure(v is True or v is False, 'true or false')


@harness('array', 'C18', inputs={'lo': Opt(OneOf(0, 1, 2)), 'hi': Opt(OneOf(0, 1, 2, 3)), 'most': OneOf(0, 1, 3), 'q': L})
def array(lo, hi, most, q):
    s = schema(type='array', minItems=lo, maxItems=hi, items=number('integer', None, q, None, None, None))
    r = outcome(Renderer().render, s, options(max_array_length=most))
    if lo is not None and hi is not None and lo > hi:
        ensure(isinstance(r.exc, ValueError), 'no such array')
        return
    v = r.val
    ensure(isinstance(v, list), 'a list')
    ensure(len(v) >= (lo or 0) and len(v) <= (hi if hi is not None else max(most, lo or 0)), 'of a permitted number of items')
    ensure(all(q is None or x >= q for x in v), 'each as the items say')
    ensure(accepted(s, v), 'accepted')


OBJ = {'minimal': Bool(), 'everything': Bool(), 'req': OneOf((), ('a',), ('a', 'b')), 'tpl': Rec({}, {'a': Any(), 'z': Any()})}


@harness('object', 'C18', inputs=dict(OBJ, lo=L))
def object_(minimal, everything, req, tpl, lo):
    s = schema(type='object', required=list(req), properties={'a': number('integer', None, lo, None, None, None), 'b': schema(type='boolean'), 'c': schema(type='boolean')})
    v = Renderer().render(s, options(minimal_property=minimal, max_property=everything, object_template=tpl))
    ensure(isinstance(v, dict), 'an object')
    for k in req:
        ensure(k in v, 'required properties are there')
    for k in ('a', 'b', 'c'):
        if k in tpl:
            ensure(k in v and v[k] is tpl[k], 'templates are used')
        elif k in v:
            ensure((v[k] is True or v[k] is False) if k != 'a' else (kind_of(v[k]) == 'int' and (lo is None or v[k] >= lo)), 'each as its schema says')
            ensure(k in req or everything or not minimal, 'optional ones only when asked for')
        else:
            ensure(not everything, 'all when asked for')
    ensure(all(k in ('a', 'b', 'c') for k in v), 'nothing else')


@harness('additional', 'C18', inputs={'lo': OneOf(None, 0, 1, 2), 'hi': OneOf(None, 0, 1, 2), 'most': OneOf(0, 1), 'tpl': Rec({}, {'a': Bool()}), 'req': Bool(), 'b': Bool()}, sizes='up to two additional properties')
def additional(lo, hi, most, tpl, req, b):
    props = {'a': schema(type='boolean')}
    if b:
        props['b'] = schema(type='boolean')
    s = schema(type='object', required=['a'] if req else [], properties=props, minProperties=lo, maxProperties=hi, additionalProperties=schema(type='string', enum=['x']))
    r = outcome(Renderer().render, s, options(max_prop_count=most, object_template=tpl, minimal_property=True, max_name_length=1))
    top = hi if hi is not None else max(most, lo or 0)
    if (lo or 0) > top:
        ensure(isinstance(r.exc, ValueError), 'no such object')
        return
    v = r.val
    n = len([k for k in v if k not in props])
    for k in v:
        ensure(v[k] == 'x' if k not in props else v[k] is True or v[k] is False, 'each as its schema says')
    ensure(len(v) >= (lo or 0), 'enough properties')
    ensure(len(v) <= max(top, 1 if req or 'a' in tpl else 0), 'not too many')


@harness('nested', 'C18', inputs={'lo': L, 'hi': L, 'way': OneOf('reference', 'composed', 'both')})
def nested(lo, hi, way):
    """references and composed schemas are rendered as what they stand for"""
    t = number('integer', None, lo, None, hi, None)
    s = schema()
    if way == 'reference':
        s.update_field('$ref', '#/x')
        s.update_field('ref_obj', t)
    elif way == 'composed':
        s.update_field('final', t)
    else:
        u = schema(final=t)
        s.update_field('$ref', '#/x')
        s.update_field('ref_obj', u)
    r = outcome(Renderer().render, s)
    if r.ok:
        ensure(in_range(r.val, lo, None, hi, None), 'as the target says')
    else:
        ensure(lo is not None and hi is not None and lo > hi, 'whenever it has a value')


@harness('parameter', 'C18', inputs={'where': OneOf('query', 'body', 'header', 'formData', 'path'), 'lo': L, 'ref': Bool()})
def parameter_(where, lo, ref):
    p = parameter(where, name='n', schema=number('integer', None, lo, None, None, None)) if where == 'body' else fill(parameter(where, name='n'), {'type': 'integer', 'minimum': lo})
    v = Renderer().render(referring(p) if ref else p)
    ensure(kind_of(v) == 'int' and (lo is None or v >= lo), 'as the parameter says')


def referring(p):
    """a reference to a parameter, as loading leaves it"""
    q = o2.Parameter(NullContext())
    q.update_field('$ref', '#/parameters/x')
    q.update_field('final', p)
    return q


OPT = {'minimal': Bool(), 'everything': Bool(), 'tpl': Rec({}, {'a': Int(), 'z': Any()}), 'skip': OneOf((), ('a',), ('b', 'z'))}


@harness('whole', 'C18', inputs=dict(OPT, ra=X, rb=X, ref=Bool(), lo=L))
def whole(minimal, everything, tpl, skip, ra, rb, ref, lo):
    """all parameters of an operation"""
    a = fill(parameter('query', name='a', required=ra), {'type': 'integer'})
    b = parameter('body', name='b', required=rb, schema=schema(type='object', required=['x'], properties={'x': number('integer', None, lo, None, None, None)}))
    op = operation(parameters=[referring(a) if ref else a, referring(b) if ref else b], consumes=[], produces=[], method='get', path='/p', url='//h/p')
    v = Renderer().render_all(op, exclude=list(skip), opt=options(minimal_parameter=minimal, max_parameter=everything, parameter_template=tpl))
    for k, r in (('a', ra), ('b', rb)):
        if k in skip:
            ensure(k not in v, 'left out as told')
        elif k in tpl:
            ensure(k in v and v[k] is tpl[k], 'templates are used')
        elif r:
            ensure(k in v, 'required ones are there')
        elif k in v:
            ensure(everything or not minimal, 'optional ones only when asked for')
        else:
            ensure(not everything, 'all when asked for')
    ensure(all(k in ('a', 'b') for k in v), 'nothing else')
    if not (ra and 'a' in skip) and not (rb and 'b' in skip):
        ready(op, PRIM)
        ensure(outcome(op, **v).ok, 'the operation accepts them')


@harness('whole_none', 'C18', inputs={'n': OneOf(0, 1), 'tpl': Rec({'z': Any()}, {'a': Int()}), 'skip': OneOf(None, (), ('b',)), 'everything': Bool()})
def whole_none(n, tpl, skip, everything):
    """what the caller gave stays as it was"""
    op = operation(parameters=[fill(parameter('query', name='a', required=True), {'type': 'integer'})][:n], consumes=[], produces=[], method='get', path='/p', url='//h/p')
    before = dict(tpl)
    o = options(max_parameter=everything, parameter_template=tpl)
    k = dict(o)
    v = Renderer().render_all(op, opt=o) if skip is None else Renderer().render_all(op, exclude=list(skip), opt=o)
    ensure(v is not tpl, 'not the templates themselves')
    ensure(list(v) == ['a'][:n], 'the parameters of the operation only')
    ensure_same(tpl, before, 'templates stay')
    ensure(o == k, 'options stay')
    w = Renderer().render_all(op, opt=o)
    ensure(w is not v and list(w) == list(v), 'the next call is answered alike')
    if n and 'a' in before:
        ensure(v['a'] == w['a'] == before['a'], 'by the templates')


@harness('refused', 'C18', inputs={'v': Scalar('str', 'int'), 'w': OneOf('obj', 'opt')})
def refused(v, w):
    f = Renderer().render
    r = outcome(f, v) if w == 'obj' else outcome(f, schema(type='integer'), v)
    ensure(isinstance(r.exc, ValueError), 'refused')


@harness('uuid', 'C18', inputs={})
def uuid_():
    s = schema(type='string', format='uuid')
    v = Renderer().render(s)
    ensure(isinstance(v, uuid.UUID), 'an identifier')
    ensure(accepted(s, v), 'accepted')


@harness('byte', 'C18', inputs={'most': Int(0)})
def byte(most):
    assume(SYMBOLIC or most <= 100)
    s = schema(type='string', format='byte')
    v = Renderer().render(s, options(max_byte_length=most))
    t = base64.b64decode(v)
    ensure(len(t) <= most, 'of a permitted length')


@harness('moment', 'C18', inputs={'f': OneOf('date', 'date-time')}, bounded='the modules time and datetime convert seconds natively')
def moment(f):
    s = schema(type='string', format=f)
    v = Renderer().render(s)
    ensure(isinstance(v, datetime.datetime) if f == 'date-time' else type(v) is datetime.date, 'a moment')
    ensure(accepted(s, v), 'accepted')


@harness('email', 'C18', inputs={}, bounded='the library that validates addresses', repeat=50)
def email():
    s = schema(type='string', format='email')
    v = Renderer().render(s)
    ensure(isinstance(v, str), 'a text')
    ensure(accepted(s, v), 'accepted')


@harness('file', 'C18', inputs={'n': OneOf(0, 1, 2), 'a': Any(), 'b': Any(), 'most': OneOf(0, 5)}, bounded='files are StringIO objects')
def file_(n, a, b, most):
    v = Renderer().render(fill(parameter('formData', name='n'), {'type': 'file'}), options(files=[a, b][:n], max_file_length=most))
    if n:
        ensure(v is a or (n == 2 and v is b), 'one of the given files')
    else:
        ensure(set(v) == set(['header', 'filename', 'data']), 'a file')
        ensure(len(v['data'].read()) <= most, 'of a permitted length')
