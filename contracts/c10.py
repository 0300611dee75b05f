from vc import *
from common import *
from pyswagger.errs import SchemaError
from pyswagger.scanner.type_reducer import TypeReduce
from pyswagger.utils import ScopeDict, scope_compose, scope_split

SEP = '!##!'
ID = Str(ex=['get', 'getPet', 'a', 'pet', 'x-get', 'pet!##!get', 'user!##!get', '!', '#'])
KEYS = ['pet!##!get', 'user!##!get', 'get', 'b!##!x-get', 'a!##!b!##!get', 'x-get']
INDEX = DictOf(Str(), keys=KEYS)


def key_of(tags, name, sep):
    return tags[0] + sep + name if tags and tags[0] else name


@harness('collected', 'C10', inputs={'old': INDEX, 'tags': Opt(ListOf(ID)), 'name': Opt(ID), 'sep': Str(nonempty=True, ex=[SEP, '.', '/'])}, covers=['added', 'anonymous', 'duplicate'])
def collected(old, tags, name, sep):
    tr = TypeReduce(sep)
    tr.op = dict(old)
    op = operation(tags=tags, operationId=name)
    r = outcome(visit, tr, op)
    if not name:
        cover('anonymous')
        ensure(r.ok, 'an operation without id is no error')
        ensure_same(tr.op, old, 'and is not indexed')
        return
    k = key_of(tags, name, sep)
    if k in old:
        cover('duplicate')
        ensure(not r.ok, 'the same tag and id twice is refused')
        ensure(isinstance(r.exc, SchemaError), 'by a schema error')
        ensure_same(tr.op, old, 'and replaces nothing')
    else:
        cover('added')
        ensure(r.ok, 'a new key is accepted')
        ensure(tr.op[k] is op, 'the operation is found under its tag and id')
        rest = dict(tr.op)
        del rest[k]
        ensure_same(rest, old, 'all others are as they were')


@harness('collected_three', 'C10', inputs={'t1': Opt(ID), 't2': Opt(ID), 't3': Opt(ID), 'a': ID, 'b': ID, 'c': ID}, covers=['ok', 'clash'])
def collected_three(t1, t2, t3, a, b, c):
    assume(both(a != '', b != '', c != ''))
    ops = [operation(tags=None if t is None else [t], operationId=n) for t, n in [(t1, a), (t2, b), (t3, c)]]
    ks = [key_of([t] if t else None, n, SEP) for t, n in [(t1, a), (t2, b), (t3, c)]]
    tr = TypeReduce()
    r = outcome(lambda: [visit(tr, o) for o in ops])
    if ks[0] == ks[1] or ks[0] == ks[2] or ks[1] == ks[2]:
        cover('clash')
        ensure(not r.ok, 'a clash is refused')
    else:
        cover('ok')
        ensure(r.ok, 'different keys are accepted')
        d = ScopeDict(tr.op)
        for k, o in zip(ks, ops):
            ensure(d[k] is o, 'each is found under its full key')
        ensure(len(d) == 3, 'and there is nothing else')


@harness('full_key', 'C10', inputs={'d': INDEX, 'k': ID, 'v': Str()})
def full_key(d, k, v):
    s = ScopeDict(d)
    s[k] = v
    ensure(s[k] == v, 'a full key finds what is stored under it')


@harness('split_key', 'C10', inputs={'d': INDEX, 'tag': ID, 'name': ID, 'v': Str(), 'sep': Str(nonempty=True, ex=[SEP, '.', '/'])})
def split_key(d, tag, name, v, sep):
    assume(both(tag != '', name != ''))
    m = dict(d)
    m[tag + sep + name] = v
    s = ScopeDict(m)
    s.sep = sep
    ensure(s[tag, name] == v, 'tag and id find the operation')
    ensure(s[tag + sep + name] == v, 'so does the composed key')


@harness('unknown_key', 'C10', inputs={'d': INDEX, 'k': ID})
def unknown_key(d, k):
    assume(all(not x.endswith(k) for x in d))
    r = outcome(lambda: ScopeDict(d)[k])
    ensure(not r.ok, 'nothing ends so: nothing is found')
    ensure(isinstance(r.exc, KeyError), 'a key error')


@harness('only_match', 'C10', inputs={'d': INDEX, 'pre': ID, 'k': ID, 'v': Str()})
def only_match(d, pre, k, v):
    full = pre + k
    assume(all(not x.endswith(k) for x in d))
    m = dict(d)
    m[full] = v
    ensure(ScopeDict(m)[k] == v, 'the only key that ends so is found')


PART = Str(no='!#', ex=['get', 'x-', 'pet', 'user'])


@harness('two_matches', 'C10', inputs={'s': Opt(PART), 't': Opt(PART), 'x': PART, 'y': PART, 'k': PART, 'u': Str(), 'v': Str()}, covers=['first', 'second', 'ambiguous'])
def two_matches(s, t, x, y, k, u, v):
    # two operations whose ids end with what is asked for
    ka = x + k if s is None else s + SEP + x + k
    kb = y + k if t is None else t + SEP + y + k
    assume(both(ka != kb, ka != k, kb != k))
    r = outcome(lambda: ScopeDict({ka: u, kb: v})[k])
    if x == '' and y != '':
        cover('first')
        ensure(r.ok, 'there is one whose id is the one asked for')
        ensure(r.val == u, 'it is found')
    elif y == '' and x != '':
        cover('second')
        ensure(r.ok, 'there is one whose id is the one asked for')
        ensure(r.val == v, 'it is found')
    else:
        cover('ambiguous')
        ensure(not r.ok, 'two operations match: refused')
        ensure(isinstance(r.exc, ValueError), 'by a value error')


@harness('many_matches', 'C10', inputs={'d': INDEX, 'a': PART, 'b': PART, 'k': PART})
def many_matches(d, a, b, k):
    ka, kb = a + SEP + k, b + SEP + k
    assume(a != b)
    assume(all(not x.endswith(k) for x in d))
    m = dict(d)
    m[ka] = '1'
    m[kb] = '2'
    r = outcome(lambda: ScopeDict(m)[k])
    ensure(not r.ok, 'the id alone is ambiguous')
    ensure(isinstance(r.exc, ValueError), 'a value error')


@harness('composed', 'C10', inputs={'a': Opt(PART), 'b': Opt(PART), 'sep': OneOf(SEP, '/', '!')})
def composed(a, b, sep):
    assume(either(sep != '/', both('/' not in (a or ''), '/' not in (b or ''))))
    r = scope_compose(a, b, sep)
    if a and b:
        ensure(r == a + sep + b, 'both, separated')
    elif b:
        ensure(r == b, 'only the name')
    elif a:
        ensure(r == a, 'only the scope')
    else:
        ensure(not r, 'nothing')
    ensure_same(scope_split(r, sep), [x for x in (a, b) if x] or [None], 'splitting gives the parts back')
