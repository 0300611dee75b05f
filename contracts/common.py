from vc import *
from pyswagger.scan import Scanner
from pyswagger.spec.base import NullContext
from pyswagger.spec.v2_0 import objects as o2


def fill(o, fields):
    for k in fields:
        # proofs take none as given, searches as not given at all
        if SYMBOLIC or fields[k] is not None:
            o.update_field(k, fields[k])
    return o


def schema(**f):
    return fill(o2.Schema(NullContext()), f)


def items(**f):
    return fill(o2.Items(NullContext()), f)


def parameter(where='query', **f):
    p = o2.Parameter(NullContext())
    p.update_field('in', where)
    return fill(p, f)


def header(**f):
    return fill(o2.Header(NullContext()), f)


def swagger(**f):
    return fill(o2.Swagger(NullContext()), f)


def security_scheme(**f):
    return fill(o2.SecurityScheme(NullContext()), f)


def operation(**f):
    return fill(o2.Operation(NullContext()), f)


def visit(visitor, obj, path='#', app=None):
    """let one visitor handle one object"""
    Scanner(app).scan(route=[visitor], root=obj, nexter=lambda root, leaves: [(path, root)])


def response(**f):
    return fill(o2.Response(NullContext()), f)


def path_item(**f):
    return fill(o2.PathItem(NullContext()), f)


class World(object):
    """what operations get from the application they belong to"""
    root = None
    version = '2.0'
    url = 'http://host/doc'

    def __init__(self, prim, codec=None, schemes=None):
        self.prim_factory = prim
        self.mime_codec = codec
        self.schemes = schemes or ['http']


def ready(op, prim, codec=None, schemes=None):
    """an operation as it is after loading, with the given factory and codec"""
    from pyswagger.scanner.v2_0.patch_obj import PatchObject
    visit(PatchObject(), op, '#/paths/~1a/get', World(prim, codec, schemes))
    return op


def recorder(name='make', fmt='x', reading=None):
    """a factory whose strings of format x are built by an arbitrary function"""
    from pyswagger.primitives import Primitive
    p = Primitive()
    make = ufn(name)

    def create(obj, v, ctx):
        if reading is not None:
            ensure(ctx['read'] is reading, 'values are built for reading or writing as the case is')
        return make(v)
    p.register('string', fmt, create)
    return p, make


def old(kind, **f):
    """an object of a version 1.2 document"""
    from pyswagger.spec.v1_2 import objects as o1
    return fill(getattr(o1, kind)(NullContext()), f)


class Web(object):
    """serves documents and remembers what was fetched"""
    def __init__(self, docs):
        self.docs = docs
        self.log = []

    def getter(self):
        web = self

        class Fetch(object):
            def __init__(self, url):
                self.url = url

            def __iter__(self):
                return self

            def __next__(self):
                web.log.append(self.url)
                return web.docs[self.url]
            next = __next__
        return Fetch
