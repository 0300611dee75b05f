import io
from vc import *
from common import *
from pyswagger.io import Request
from pyswagger.primitives import Primitive
from pyswagger.primitives._file import File

MULTI = 'multipart/form-data'
TYPE, CODE = 'Content-Type', 'Content-Transfer-Encoding'
HEADER = Rec({}, {TYPE: Str(no='\r\n'), CODE: OneOf('binary', '7bit', '8bit')})


class Stream(object):
    """a file opened by the caller"""
    def __init__(self, content):
        self.content = content

    def read(self):
        return self.content


def upload(header, filename, content):
    f = File()
    f.apply_with(None, {'header': header, 'filename': filename, 'data': Stream(content)}, None)
    f.header_, f.content = header, content
    return f


class TheOp(object):
    url, path, produces, parameters = '//h/p', '/p', [], []

    def __init__(self, consumes):
        self.consumes = consumes


def sent(form, files, consumes=(), **k):
    r = Request(TheOp(list(consumes)), {'path': {}, 'header': {}, 'query': [], 'formData': form, 'file': files, 'body': {}})
    r.prepare(**k)
    t = r.header[TYPE]
    lead = MULTI + '; boundary='
    ensure(t.startswith(lead), 'the boundary is announced')
    mark = t[len(lead):]
    if not SYMBOLIC:
        ensure(len(mark) > 0 and len(mark) <= 70 and all(x.isalnum() or x in "'()+_,-./:=?" for x in mark), 'and is a valid one')
    return mark, r.data


def quoted(s):
    return s.replace('"', '%22').replace('\r', '%0D').replace('\n', '%0A')


def part(mark, name, text):
    return ('--' + mark + '\r\nContent-Disposition: form-data; name="' + quoted(name) + '"\r\n\r\n').encode('utf-8') + text.encode('utf-8') + b'\r\n'


def file_part(mark, name, f):
    h = '--' + mark + '\r\nContent-Disposition: form-data; name="' + quoted(name) + '"; filename="' + quoted(f.filename) + '"\r\n'
    if TYPE in f.header_:
        h = h + TYPE + ': ' + f.header_[TYPE] + '\r\n'
    if CODE in f.header_:
        h = h + CODE + ': ' + f.header_[CODE] + '\r\n'
    return (h + '\r\n').encode('utf-8') + (f.content if kind_of(f.content) == 'bytes' else f.content.encode('utf-8')) + b'\r\n'


def end(mark):
    return ('--' + mark + '--\r\n').encode('utf-8')


CONTENT = Union(Bytes(), Str())
FILE = Build(upload, HEADER, Str(), CONTENT)
# the other kinds of files are in one_file
PLAIN = Build(upload, Rec({TYPE: Str()}, {}), Str(), Bytes())
FIELDS = ListOf(Tup(Str(), Str()))


@harness('one_file', 'C24', inputs={'n': Str(), 'f': FILE, 'how': OneOf((), (MULTI,), ('a/b', MULTI))})
def one_file(n, f, how):
    mark, data = sent([], {n: f}, how)
    ensure_same(data, file_part(mark, n, f) + end(mark), 'the file with its name, headers and bytes')


@harness('fields', 'C24', inputs={'form': FIELDS, 'n': Str(), 'f': FILE})
def fields(form, n, f):
    mark, data = sent(list(form), {n: f})
    ensure_same(data, b''.join([part(mark, k, v) for k, v in form]) + file_part(mark, n, f) + end(mark), 'every field in order, then the file')


@harness('files', 'C24', inputs={'form': FIELDS, 'files': DictOf(PLAIN)})
def files(form, files):
    assume(len(files) > 0)
    mark, data = sent(list(form), files)
    ensure_same(data, b''.join([part(mark, k, v) for k, v in form] + [file_part(mark, k, f) for k, f in files.items()]) + end(mark), 'every file under its name')


@harness('repeated', 'C24', inputs={'n': Str(), 'files': ListOf(PLAIN), 'm': Str(), 'g': PLAIN})
def repeated(n, files, m, g):
    assume(n != m)
    mark, data = sent([], {n: files, m: g})
    ensure_same(data, b''.join([file_part(mark, n, f) for f in files] + [file_part(mark, m, g)]) + end(mark), 'every file of a repeated one')


@harness('encoded', 'C24', inputs={'e': OneOf('utf-8', 'latin-1'), 'k': Str(), 'v': Str(), 'n': Str(), 'name': Str(), 't': Str(no='\r\n'), 'c': Str()}, covers=['sent', 'not'])
def encoded(e, k, v, n, name, t, c):
    """text is sent in the encoding asked for"""
    f = upload({TYPE: t}, name, c)
    want = [outcome(lambda: x.encode(e)) for x in (quoted(k), v, quoted(n), quoted(name), t, c)]
    r = outcome(sent, [(k, v)], {n: f}, (), encoding=e)
    if not all(x.ok for x in want):
        cover('not')
        ensure(isinstance(r.exc, UnicodeError), 'text without an encoding is refused')
        return
    cover('sent')
    mark, data = r.val
    k, v, n, name, t, c = [x.val for x in want]
    line = b'--' + mark.encode('ascii')
    ensure_same(data, line + b'\r\nContent-Disposition: form-data; name="' + k + b'"\r\n\r\n' + v + b'\r\n' +
                line + b'\r\nContent-Disposition: form-data; name="' + n + b'"; filename="' + name + b'"\r\n' + b'Content-Type: ' + t + b'\r\n\r\n' + c + b'\r\n' +
                line + b'--\r\n', 'each text in the encoding')


@harness('refused', 'C24', inputs={'f': FILE, 'how': ListOf(Str(ex=[MULTI, 'a/b'])), 'form': FIELDS})
def refused(f, how, form):
    assume(len(how) > 0 and MULTI not in how)
    r = outcome(sent, list(form), {'f': f}, how)
    ensure(r.exc is not None, 'operations that do not take uploads')


@harness('left_to_client', 'C24', inputs={'f': FILE, 'form': FIELDS})
def left_to_client(f, form):
    """clients that frame themselves get fields and files as they are"""
    r = Request(TheOp([]), {'path': {}, 'header': {}, 'query': [], 'formData': list(form), 'file': {'f': f}, 'body': {}})
    r.prepare(handle_files=False)
    ensure_same(r.data, form, 'the fields')
    ensure(len(r.files) == 1 and r.files['f'] is f, 'the files')
    ensure(TYPE not in r.header, 'no content type')


@harness('called', 'C24', inputs={'h': HEADER, 'name': Str(), 'c': CONTENT, 'd': CONTENT, 'text': Opt(Str()), 'many': Bool()})
def called(h, name, c, d, text, many):
    """what is given when calling is what is framed"""
    one = parameter('formData', name='up', type='array' if many else 'file', items=items(type='file') if many else None, collectionFormat='multi' if many else None)
    op = ready(operation(parameters=[one, parameter('formData', name='note', type='string')], url='//h/p', path='/p', consumes=[], produces=[]), Primitive())
    a = {'header': h, 'filename': name, 'data': Stream(c)}
    b = {'header': h, 'filename': name, 'data': Stream(d)}
    args = {'up': [a, b] if many else a}
    if text is not None:
        args['note'] = text
    r = op(**args)[0]
    r.prepare()
    mark = r.header[TYPE][len(MULTI + '; boundary='):]
    f, g = upload(h, name, c), upload(h, name, d)
    ensure_same(r.data, (part(mark, 'note', text) if text is not None else b'') + file_part(mark, 'up', f) + (file_part(mark, 'up', g) if many else b'') + end(mark), 'the fields and files given')


@harness('from_disk', 'C24', inputs={'n': Str(), 'c': Bytes(), 'h': HEADER}, bounded='files on disk', weight=0.2)
def from_disk(n, c, h):
    """without an opened file, the named one is read"""
    import os
    import tempfile
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'a file.bin')
    try:
        with open(p, 'wb') as out:
            out.write(c)
        f = File()
        f.apply_with(None, {'header': h, 'filename': p}, None)
        mark, data = sent([], {n: f})
    finally:
        os.unlink(p)
        os.rmdir(d)
    f.header_, f.content = h, c
    ensure_same(data, file_part(mark, n, f) + end(mark), 'its bytes')
