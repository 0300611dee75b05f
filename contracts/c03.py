from vc import *
from common import *
from pyswagger.primitives import Primitive
from pyswagger import errs

LIMIT = dict(maximum=Opt(Num()), minimum=Opt(Num()), exclusiveMaximum=Opt(Bool()), exclusiveMinimum=Opt(Bool()), multipleOf=OneOf(None))
INTS = Build(schema, type=OneOf('integer'), format=OneOf(None, 'int32', 'int64', 'other'), **LIMIT)
FLOATS = Build(schema, type=OneOf('number'), format=OneOf(None, 'float', 'double', 'other'), **LIMIT)
HEADS = Build(header, type=OneOf('integer'), format=OneOf(None, 'int32'), **LIMIT)


def within(o, v):
    ok = True
    if o.maximum is not None:
        ok = both(ok, v < o.maximum if o.exclusiveMaximum else v <= o.maximum)
    if o.minimum is not None:
        ok = both(ok, v > o.minimum if o.exclusiveMinimum else v >= o.minimum)
    return ok


@harness('int_sound', 'C03', inputs={'o': INTS, 'v': Scalar('bool', 'int', 'real', 'str')}, covers=['accepted', 'rejected'])
def int_sound(o, v):
    r = outcome(Primitive().produce, o, v)
    if r.ok:
        cover('accepted')
        ensure(kind_of(r.val) == 'int', 'an integer is produced')
        ensure(within(o, r.val), 'every accepted integer satisfies the limits')
        ensure(implies(kind_of(v) == 'int', r.val == v), 'the value is kept')
    else:
        cover('rejected')


@harness('int_converted', 'C03', inputs={'v': Real(), 'lim': Opt(Int())}, covers=['kept', 'cut'])
def int_converted(v, lim):
    r = outcome(Primitive().produce, schema(type='integer', minimum=lim), v)
    want = int(v)
    cover('kept' if want == v else 'cut')
    ensure(iff(r.ok, lim is None or want >= lim), 'the limits are those of the converted value')
    if r.ok:
        ensure(both(kind_of(r.val) == 'int', r.val == want), 'a number is converted the way Python does')


@harness('int_complete', 'C03', inputs={'o': INTS, 'v': Int()}, covers=['in', 'out'])
def int_complete(o, v):
    r = outcome(Primitive().produce, o, v)
    if within(o, v):
        cover('in')
        ensure(r.ok, 'integers inside the limits are accepted')
        ensure(r.val == v, 'unchanged')
    else:
        cover('out')
        ensure(not r.ok, 'integers outside the limits are rejected')
        ensure(isinstance(r.exc, errs.ValidationError), 'rejected by a validation error')


@harness('int_header', 'C03', inputs={'o': HEADS, 'v': Scalar('int', 'str')}, covers=['accepted', 'rejected'])
def int_header(o, v):
    r = outcome(o._prim_, v, Primitive())
    if r.ok:
        cover('accepted')
        ensure(within(o, r.val), 'limits of a header are enforced')
    else:
        cover('rejected')


@harness('float_sound', 'C03', inputs={'o': FLOATS, 'v': Scalar('bool', 'int', 'real', 'str')}, covers=['accepted', 'rejected'])
def float_sound(o, v):
    r = outcome(Primitive().produce, o, v)
    if r.ok:
        cover('accepted')
        ensure(kind_of(r.val) == 'real', 'a float is produced')
        ensure(within(o, r.val), 'every accepted number satisfies the limits')
    else:
        cover('rejected')


@harness('float_complete', 'C03', inputs={'o': FLOATS, 'v': Real()}, covers=['in', 'out'])
def float_complete(o, v):
    r = outcome(Primitive().produce, o, v)
    if within(o, v):
        cover('in')
        ensure(r.ok, 'numbers inside the limits are accepted')
        ensure(r.val == v, 'unchanged')
    else:
        cover('out')
        ensure(not r.ok, 'numbers outside the limits are rejected')
        ensure(isinstance(r.exc, errs.ValidationError), 'rejected by a validation error')


@harness('number_as_int', 'C03', inputs={'o': Build(schema, type=OneOf('number'), format=OneOf('int32', 'int64'), **LIMIT), 'v': Int()}, covers=['in'])
def number_as_int(o, v):
    r = outcome(Primitive().produce, o, v)
    ensure(iff(r.ok, within(o, v)), 'number with an integer format obeys the limits')
    if r.ok:
        cover('in')
        ensure(same(r.val, v), 'an integer')


@harness('multiple', 'C03', inputs={'t': OneOf('integer', 'number'), 'k': OneOf(1, 2, 3, 5, 10, 12, 97, 1000), 'v': Int(-2**53, 2**53)}, covers=['yes', 'no'])
def multiple(t, k, v):
    o = schema(type=t, multipleOf=k)
    r = outcome(Primitive().produce, o, v)
    if v % k == 0:
        cover('yes')
        ensure(r.ok, 'multiples are accepted')
    else:
        cover('no')
        ensure(not r.ok, 'other values are rejected')


@harness('multiple_float', 'C03', inputs={'k': OneOf(1, 2, 4, 6, 8, 12, 24, 80, 1000), 'i': Int(-2**48, 2**48)}, covers=['yes', 'no'])
def multiple_float(k, i):
    """numbers and multiples counted in eighths, which floats hold exactly"""
    o = schema(type='number', multipleOf=k / 8.0)
    r = outcome(Primitive().produce, o, i / 8.0)
    if i % k == 0:
        cover('yes')
        ensure(r.ok, 'multiples are accepted')
        ensure(r.val == i / 8.0, 'unchanged')
    else:
        cover('no')
        ensure(not r.ok, 'other values are rejected')
        ensure(isinstance(r.exc, errs.ValidationError), 'by a validation error')


STRS = Build(schema, type=OneOf('string'), format=OneOf(None, '', 'password', 'other'), maxLength=Opt(Int(0)), minLength=Opt(Int(0)),
             enum=Opt(ListOf(Str(), min=1)))


def str_ok(o, v):
    ok = True
    if o.maxLength is not None:
        ok = both(ok, len(v) <= o.maxLength)
    if o.minLength is not None:
        ok = both(ok, len(v) >= o.minLength)
    if o.enum is not None:
        ok = both(ok, v in o.enum)
    return ok


@harness('str_exact', 'C03', inputs={'o': STRS, 'v': Str()}, covers=['in', 'out'])
def str_exact(o, v):
    r = outcome(Primitive().produce, o, v)
    if str_ok(o, v):
        cover('in')
        ensure(r.ok, 'strings satisfying length and enum are accepted')
        ensure(r.val == v, 'unchanged')
    else:
        cover('out')
        ensure(not r.ok, 'other strings are rejected')
        ensure(isinstance(r.exc, errs.ValidationError), 'rejected by a validation error')


@harness('str_other', 'C03', inputs={'o': STRS, 'v': Scalar('bool', 'int', 'real')})
def str_other(o, v):
    r = outcome(Primitive().produce, o, v)
    if r.ok:
        ensure(kind_of(r.val) == 'str', 'a string is produced')
        ensure(str_ok(o, r.val), 'the produced string satisfies length and enum')
        ensure(r.val == str(v), 'the text of the value')


@harness('bools', 'C03', inputs={'f': OneOf(None, '', 'other'), 'v': Scalar('bool', 'int', 'real', 'str')})
def bools(f, v):
    r = Primitive().produce(schema(type='boolean', format=f), v)
    ensure(same(r, bool(v)), 'truth of the value')


DINTS = Build(schema, type=OneOf('integer'), format=OneOf(None, 'int64'), maximum=Opt(Int()), minimum=Opt(Int()))
DFLOATS = Build(schema, type=OneOf('number'), format=OneOf(None, 'int32'), maximum=Opt(Num()))


@harness('defaults', 'C03', inputs={'o': Union(DINTS, DFLOATS, STRS), 'd': Scalar('int', 'real', 'str')})
def defaults(o, d):
    o.update_field('default', d)
    a = outcome(Primitive().produce, o, None)
    b = outcome(Primitive().produce, o, d)
    ensure(a.ok == b.ok, 'no value means the default')
    if a.ok:
        ensure(same(a.val, b.val), 'value of the default')


@harness('default_unused', 'C03', inputs={'o': Union(DINTS, DFLOATS, STRS, Build(schema, type=OneOf('boolean'))), 'd': Scalar('bool', 'int', 'real', 'str'), 'v': Scalar('bool', 'int', 'real', 'str')})
def default_unused(o, d, v):
    a = outcome(Primitive().produce, o, v)
    o.update_field('default', d)
    b = outcome(Primitive().produce, o, v)
    ensure(a.ok == b.ok, 'a given value does not depend on the default')
    if a.ok:
        ensure(same(a.val, b.val), 'a given value is not replaced by the default, whatever it is')


@harness('nothing', 'C03', inputs={'o': Union(INTS, FLOATS, STRS)})
def nothing(o):
    ensure(Primitive().produce(o, None) is None, 'no value and no default produce nothing')


@harness('unknown_type', 'C03', inputs={'t': Str(nonempty=True), 'v': Scalar('int', 'str')}, covers=['unknown'])
def unknown_type(t, v):
    assume(t not in ('integer', 'number', 'string', 'boolean', 'file', 'array', 'object'))
    cover('unknown')
    r = outcome(Primitive().produce, schema(type=t), v)
    ensure(not r.ok, 'unknown types are rejected')
    ensure(isinstance(r.exc, ValueError), 'by a ValueError')


@harness('registered', 'C03', inputs={'t': OneOf('string', 'integer', 'money'), 'f': OneOf(None, 'x', 'int32'), 't2': OneOf('string', 'money', 'weight'), 'f2': OneOf(None, 'x', 'y'), 'v': Int()})
def registered(t, f, t2, f2, v):
    """handlers registered for a type and format are for these, and for the factory they are given to"""
    make = ufn('make')
    p, q = Primitive(), Primitive()
    was = q.get(t, f)
    was2 = p.get(t2, f2)
    hit = lambda o, val, ctx: make(val)
    p.register(t, f, hit)
    ensure(p.get(t, f)[0] is hit, 'registered')
    ensure_same(p.produce(schema(type=t, format=f), v), make(v), 'used')
    ensure(p.get(t, f)[1] is None, 'nothing else runs')
    ensure(q.get(t, f) == was, 'other factories do not know it')
    if t2 != t:
        ensure(p.get(t2, f2) == was2, 'other types stay')
    elif t in ('string', 'integer') and f is not None and f2 != f:
        ensure(p.get(t2, f2) == was2, 'other formats stay')
    ensure(Primitive().get(t, f) == was, 'new factories do not know it')
    p.register(t2, f2, lambda o, val, ctx: None)
    if (t2, f2) != (t, f):
        ensure(p.get(t, f)[0] is hit, 'later registrations do not disturb it')
    r = outcome(q.produce, schema(type='money', format=f), v)
    ensure(both(not r.ok, isinstance(r.exc, ValueError)), 'unknown types are refused')
