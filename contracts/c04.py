from vc import *
from common import *
from pyswagger.primitives import Primitive, Array
from pyswagger import errs

SEP = {'csv': ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|'}
LIM = dict(minItems=Opt(Int(0)), maxItems=Opt(Int(0)))


def factory():
    """a factory whose string items of format x are built by an arbitrary function"""
    p = Primitive()
    make = ufn('make')
    p.register('string', 'x', lambda obj, v, ctx: make(v))
    return p, make


def array(kind, cf=None, item=None, **f):
    o = {'schema': schema, 'parameter': parameter, 'header': header, 'items': items}[kind](type='array', items=item or items(type='string', format='x'), **f)
    if cf is not None and kind != 'schema':
        o.update_field('collectionFormat', cf)
    return o


def fits(o, n):
    ok = True
    if o.minItems is not None:
        ok = both(ok, n >= o.minItems)
    if o.maxItems is not None:
        ok = both(ok, n <= o.maxItems)
    return ok


@harness('list_items', 'C04', inputs={'o': Build(array, OneOf('schema', 'parameter', 'header', 'items'), OneOf(None, 'csv', 'pipes', 'multi'), **LIM),
                                      'v': ListOf(Scalar('bool', 'int', 'real', 'str'))}, covers=['fits', 'not'])
def list_items(o, v):
    p, make = factory()
    r = outcome(p.produce, o, v)
    if fits(o, len(v)):
        cover('fits')
        ensure(r.ok, 'lists within the item limits are accepted')
        ensure(isinstance(r.val, Array), 'an array')
        ensure(same(list(r.val), [make(x) for x in v]), 'every item, in order, built by the item schema')
    else:
        cover('not')
        ensure(not r.ok, 'lists outside the item limits are rejected')
        ensure(isinstance(r.exc, errs.ValidationError), 'by a validation error')


@harness('no_item_schema', 'C04', inputs={'lo': Opt(Int(0)), 'hi': Opt(Int(0)), 'v': ListOf(Scalar())}, covers=['fits', 'not'])
def no_item_schema(lo, hi, v):
    r = outcome(Primitive().produce, schema(type='array', minItems=lo, maxItems=hi), v)
    if both(lo is None or len(v) >= lo, hi is None or len(v) <= hi):
        cover('fits')
        ensure(r.ok, 'lists within the item limits are accepted')
        ensure(same(list(r.val), v), 'items without a schema are kept as given')
    else:
        cover('not')
        ensure(not r.ok, 'lists outside the item limits are rejected')


@harness('no_item_schema_text', 'C04', inputs={'s': Str()})
def no_item_schema_text(s):
    ensure(same(list(Primitive().produce(schema(type='array'), s)), s.split(',')), 'text without an item schema is split all the same')


@harness('list_pure', 'C04', inputs={'v': ListOf(Scalar('int', 'str'))})
def list_pure(v):
    w = list(v)
    Primitive().produce(array('schema', item=items(type='string')), v)
    ensure(same(v, w), 'the given list is not modified')


@harness('list_limits', 'C04', inputs={'m': Int(), 'v': ListOf(Int())}, covers=['ok'])
def list_limits(m, v):
    r = outcome(Primitive().produce, array('schema', item=items(type='integer', maximum=m)), v)
    if r.ok:
        cover('ok')
        ensure(len(r.val) == len(v), 'no item lost')
        ensure(all(x <= m for x in r.val), 'every item meets the limits of the item schema')
        ensure(same(list(r.val), v), 'values kept')
    else:
        ensure(any(x > m for x in v), 'only a bad item is a reason to reject')


@harness('text_split', 'C04', inputs={'o': Build(array, OneOf('parameter', 'header', 'items'), OneOf('csv', 'ssv', 'tsv', 'pipes'), **LIM), 's': Str()}, covers=['fits'])
def text_split(o, s):
    p, make = factory()
    r = outcome(p.produce, o, s)
    parts = s.split(SEP[o.collectionFormat])
    ensure(iff(r.ok, fits(o, len(parts))), 'limits count the separated items')
    if r.ok:
        cover('fits')
        ensure(same(list(r.val), [make(x) for x in parts]), 'one item per separated piece, in order')


@harness('text_schema', 'C04', inputs={'s': Str()})
def text_schema(s):
    p, make = factory()
    ensure(same(list(p.produce(array('schema'), s)), [make(x) for x in s.split(',')]), 'comma is the default separator')


@harness('text_default', 'C04', inputs={'kind': OneOf('schema', 'parameter', 'header', 'items'), 's': Str()})
def text_default(kind, s):
    p, make = factory()
    ensure(same(list(p.produce(array(kind), s)), [make(x) for x in s.split(',')]), 'comma is the default separator')


@harness('text_unsupported', 'C04', inputs={'f': Str(ex=['multi', 'CSV', '']), 's': Str()}, covers=['other'])
def text_unsupported(f, s):
    assume(f not in SEP)
    cover('other')
    r = outcome(Primitive().produce, array('parameter', f, items(type='string')), s)
    ensure(not r.ok, 'text in an unknown collection format is rejected')
    ensure(isinstance(r.exc, errs.SchemaError), 'by a schema error')


@harness('to_text', 'C04', inputs={'f': OneOf('csv', 'ssv', 'tsv', 'pipes'), 'v': ListOf(Str())})
def to_text(f, v):
    a = Primitive().produce(array('parameter', f, items(type='string')), v)
    ensure(str(a) == SEP[f].join(v), 'items joined by the separator of the collection format')
    ensure(same(a.to_url(), [SEP[f].join(v)]), 'one value for the address')


@harness('to_text_numbers', 'C04', inputs={'f': OneOf('csv', 'ssv', 'tsv', 'pipes'), 'v': ListOf(Int())})
def to_text_numbers(f, v):
    a = Primitive().produce(array('header', f, items(type='integer')), v)
    ensure(str(a) == SEP[f].join([str(x) for x in v]), 'items joined by the separator of the collection format')


@harness('to_text_multi', 'C04', inputs={'v': ListOf(Scalar('int', 'str'))})
def to_text_multi(v):
    a = Primitive().produce(array('parameter', 'multi', items(type='string')), v)
    ensure(same(a.to_url(), [str(x) for x in v]), 'one value per item')
    r = outcome(str, a)
    ensure(not r.ok, 'no single text for multi')


@harness('to_text_multi_numbers', 'C04', inputs={'v': ListOf(Int())})
def to_text_multi_numbers(v):
    a = Primitive().produce(array('parameter', 'multi', items(type='integer')), v)
    ensure(same(a.to_url(), [str(x) for x in v]), 'one text per item')


def _round(f, v):
    p = Primitive()
    o = array('parameter', f, items(type='string'))
    ensure(same(list(p.produce(o, str(p.produce(o, v)))), v), 'items free of the separator survive the round trip')


@harness('round_csv', 'C04', inputs={'v': ListOf(Str(no=','), min=1)})
def round_csv(v):
    _round('csv', v)


@harness('round_ssv', 'C04', inputs={'v': ListOf(Str(no=' '), min=1)})
def round_ssv(v):
    _round('ssv', v)


@harness('round_tsv', 'C04', inputs={'v': ListOf(Str(no='\t'), min=1)})
def round_tsv(v):
    _round('tsv', v)


@harness('round_pipes', 'C04', inputs={'v': ListOf(Str(no='|'), min=1)})
def round_pipes(v):
    _round('pipes', v)


@harness('nested', 'C04', inputs={'v': ListOf(ListOf(Scalar('int', 'str'), min=1))})
def nested(v):
    p, make = factory()
    r = p.produce(array('schema', item=array('items')), v)
    ensure(same([list(x) for x in r], [[make(y) for y in x] for x in v]), 'arrays of arrays keep every item')


@harness('nested_text', 'C04', inputs={'s': Str()})
def nested_text(s):
    p, make = factory()
    r = p.produce(array('parameter', 'pipes', item=array('items', 'csv')), s)
    ensure(same([list(x) for x in r], [[make(y) for y in x.split(',')] for x in s.split('|')]), 'each level splits at its own separator')


def firsts(v):
    """the first occurrence of each item, in order"""
    out = []
    for x in v:
        if x not in out:
            out.append(x)
    return out


@harness('unique', 'C04', inputs={'v': ListOf(Int(0, 6)), 'm': Opt(Int(0, 4)), 'n': Int(1, 12)})
def unique(v, m, n):
    if not SYMBOLIC:
        # longer lists, items repeated far apart
        v = [7 * j + x for j in range(n) for x in v] + v
    p, make = factory()
    o = array('schema', uniqueItems=True, minItems=m)
    r = outcome(p.produce, o, v)
    ensure(iff(r.ok, fits(o, len(firsts(v)))), 'limits count the distinct items')
    if r.ok:
        ensure(same(list(r.val), [make(x) for x in firsts(v)]), 'duplicates removed, the first of each kept, order kept')


ITEM = Scalar('int', 'str', 'bool')


@harness('unique_kinds', 'C04', inputs={'x': Union(ITEM, Tup(ITEM)), 'y': Union(ITEM, Tup(ITEM))}, examples=[{'x': {'u': 0, 'v': 1}, 'y': {'u': 0, 'v': '1'}}])
def unique_kinds(x, y):
    p, make = factory()
    r = p.produce(array('schema', uniqueItems=True), [x, y, x])
    ensure(same(list(r), [make(x)] if x == y else [make(x), make(y)]), 'values that differ are different items, whatever their text')


@harness('unique_text', 'C04', inputs={'s': Str(ex=['a,a', 'a,b,a', ',,'])})
def unique_text(s):
    p, make = factory()
    o = array('parameter', 'csv', uniqueItems=True)
    ensure(same(list(p.produce(o, s)), [make(x) for x in firsts(s.split(','))]), 'duplicates removed, the first of each kept, order kept')


@harness('default_unused', 'C04', inputs={'d': Union(Str(), ListOf(Str())), 'v': Union(Str(), ListOf(Scalar('int', 'str'))), 'o': Build(array, OneOf('schema', 'parameter'), **LIM)})
def default_unused(d, v, o):
    p, make = factory()
    a = outcome(p.produce, o, v)
    o.update_field('default', d)
    b = outcome(p.produce, o, v)
    ensure(a.ok == b.ok, 'a given array does not depend on the default')
    if a.ok:
        ensure(same(list(a.val), list(b.val)), 'a given array is not replaced by the default, even when it is empty')
