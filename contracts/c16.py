import base64
import datetime
import re
import uuid
from vc import *
from common import *
from pyswagger.utils import from_iso8601, FixedTZ
from pyswagger.primitives import Primitive

YMD = dict(y=Int(1, 9999), m=Int(1, 12), d=Int(1, 31))
HMS = dict(h=Int(0, 23), mi=Int(0, 59), s=Int(0, 59))
OFFSET = Int(0, 23)


def moment(y, m, d, h=0, mi=0, s=0, us=0, tz=None):
    r = outcome(datetime.datetime, y, m, d, h, mi, s, us, tz)
    assume(r.ok)
    return r.val


def fields(v):
    return (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)


def offset(sign, hh, mm):
    return datetime.timedelta(minutes=sign * (60 * hh + mm))


def prim(f, v):
    return Primitive().produce(schema(type='string', format=f), v)


@harness('date_texts', 'C16', inputs=YMD)
def date_texts(y, m, d):
    v = moment(y, m, d)
    text = '%04d-%02d-%02d' % (y, m, d)
    p = prim('date', text)
    ensure((p.v.year, p.v.month, p.v.day) == (y, m, d), 'the date of the text')
    ensure(p.v == datetime.date(y, m, d), 'a date')
    ensure(p.to_json() == text, 'sent as it was given')
    ensure(str(p) == text, 'also outside of bodies')
    ensure(fields(prim('date-time', text).v) == (y, m, d, 0, 0, 0, 0), 'as a date-time its midnight')


@harness('date_values', 'C16', inputs=YMD)
def date_values(y, m, d):
    moment(y, m, d)
    v = datetime.date(y, m, d)
    p = prim('date', v)
    ensure(p.v == v, 'the value is kept')
    ensure(prim('date', p.to_json()).v == v, 'sent and read back, the same date')


@harness('date_of_datetime', 'C16', inputs=dict(YMD, **HMS))
def date_of_datetime(y, m, d, h, mi, s):
    p = prim('date', moment(y, m, d, h, mi, s))
    ensure(p.to_json() == '%04d-%02d-%02d' % (y, m, d), 'a date is sent as a date')


@harness('date_of_zoned', 'C16', inputs=dict(YMD, sign=OneOf(0, 1, -1), hh=OFFSET, mm=Int(0, 59), **HMS))
def date_of_zoned(y, m, d, h, mi, s, sign, hh, mm):
    p = prim('date', moment(y, m, d, h, mi, s, tz=offset(sign, hh, mm)))
    ensure(p.to_json() == '%04d-%02d-%02d' % (y, m, d), 'the date the moment has where it is given')


@harness('fractions', 'C16', inputs=dict(YMD, us=Int(0, 999999), digits=OneOf(0, 1, 2, 3, 4, 5, 6), zone=OneOf('', 'Z'), **HMS), covers=['some', 'none'])
def fractions(y, m, d, h, mi, s, us, digits, zone):
    moment(y, m, d, h, mi, s)
    text = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, m, d, h, mi, s)
    frac = 0
    for n in (1, 2, 3, 4, 5, 6):
        if digits == n:
            cover('some')
            assume(us < 10 ** n)
            text = text + '.' + ('%0' + str(n) + 'd') % us
            frac = us * 10 ** (6 - n)
    if digits == 0:
        cover('none')
    v = from_iso8601(text + zone)
    ensure(fields(v) == (y, m, d, h, mi, s, frac), 'every part of the text is read, the fraction by its places')
    ensure(iff(v.utcoffset() is None, zone == ''), 'the zone is kept')


@harness('zones', 'C16', inputs=dict(YMD, us=Int(0, 999), fraction=Bool(), zone=OneOf('', 'Z', '+', '-'), hh=OFFSET, mm=Int(0, 59), **HMS), covers=['zone', 'none'])
def zones(y, m, d, h, mi, s, us, fraction, zone, hh, mm):
    moment(y, m, d, h, mi, s)
    text = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, m, d, h, mi, s)
    if fraction:
        text = text + '.%03d' % us
    text = text + zone
    if zone in ('+', '-'):
        text = text + '%02d:%02d' % (hh, mm)
    v = from_iso8601(text)
    ensure(fields(v) == (y, m, d, h, mi, s, us * 1000 if fraction else 0), 'every part of the text is read')
    if zone == '':
        cover('none')
        ensure(v.utcoffset() is None, 'without zone, no offset')
    else:
        cover('zone')
        want = offset(0, 0, 0) if zone == 'Z' else offset(1 if zone == '+' else -1, hh, mm)
        ensure(v.utcoffset() == want, 'the offset of the zone, with its sign')


@harness('short_times', 'C16', inputs=dict(y=Int(1, 9999), h=Int(0, 23), mi=Int(0, 59), s=Int(0, 9), how=OneOf('minutes', 'digit'), zone=OneOf('', 'Z')))
def short_times(y, h, mi, s, how, zone):
    text = '%04d-03-31T%02d:%02d' % (y, h, mi)
    if how == 'digit':
        text = text + ':' + '%01d' % s
    v = from_iso8601(text + zone)
    ensure(fields(v) == (y, 3, 31, h, mi, s if how == 'digit' else 0, 0), 'seconds may be left out or have one digit')
    ensure(iff(v.utcoffset() is None, zone == ''), 'the zone is kept')


@harness('datetime_round_trip', 'C16', inputs=dict(YMD, us=Int(0, 999999), sign=OneOf(None, 0, 1, -1), hh=OFFSET, mm=Int(0, 59), **HMS), slow=True)
def datetime_round_trip(y, m, d, h, mi, s, us, sign, hh, mm):
    tz = None if sign is None else FixedTZ(h=sign * hh, m=sign * mm)
    v = moment(y, m, d, h, mi, s, us, tz)
    p = prim('date-time', v)
    ensure(fields(p.v) == fields(v), 'the value is kept')
    q = prim('date-time', p.to_json())
    ensure(fields(q.v) == fields(v), 'sent and read back, the same moment')
    if sign is None:
        ensure(q.v.utcoffset() is None, 'still without zone')
    else:
        ensure(q.v.utcoffset() == offset(sign, hh, mm), 'and the same offset')
    ensure(q.to_json() == p.to_json(), 'and the same text')


@harness('out_of_range', 'C16', inputs=dict(y=Int(0, 9999), m=Int(0, 99), d=Int(0, 99), h=Int(0, 99), mi=Int(0, 99), s=Int(0, 99), timed=Bool()))
def out_of_range(y, m, d, h, mi, s, timed):
    text = '%04d-%02d-%02d' % (y, m, d)
    if timed:
        text = text + 'T%02d:%02d:%02d' % (h, mi, s)
        want = outcome(datetime.datetime, y, m, d, h, mi, s)
    else:
        want = outcome(datetime.datetime, y, m, d)
    r = outcome(from_iso8601, text)
    ensure(r.ok == want.ok, 'exactly the texts of existing dates and times are read')
    if not r.ok:
        ensure(isinstance(r.exc, ValueError), 'others are a ValueError')


FORM = re.compile(r'\d{4}-\d{2}-\d{2}(T\d{2}:\d{2}(:\d{1,2}(\.\d{1,6})?)?(Z|[+-]\d{2}:\d{2})?)?\Z')


@harness('malformed', 'C16', inputs={'t': Str(ex=['2020-01-01', '2020-01-01x', '2020-01-01T10:00:00.1234567Z', '2020-01-01T10:00z', '2020-1-1', ' 2020-01-01', '2020-01-01\n', '2020-01-01T10', '2020-01-01T10:00:00+0100'])}, covers=['bad'])
def malformed(t):
    assume(not FORM.match(t))
    cover('bad')
    for f in (lambda: from_iso8601(t), lambda: prim('date', t), lambda: prim('date-time', t)):
        r = outcome(f)
        ensure(not r.ok, 'a text of another form is not read')
        ensure(isinstance(r.exc, ValueError), 'it is a ValueError')


@harness('wrong_kinds', 'C16', inputs={'v': Scalar('bool', 'int'), 'f': OneOf('date', 'date-time', 'byte', 'uuid', 'binary')})
def wrong_kinds(v, f):
    r = outcome(prim, f, v)
    ensure(not r.ok, 'values of other kinds are refused')
    ensure(isinstance(r.exc, ValueError), 'with a ValueError')


@harness('timestamps', 'C16', inputs={'t': Real(-10 ** 9, 4 * 10 ** 9), 'f': OneOf('date', 'date-time')})
def timestamps(t, f):
    want = outcome(datetime.date.fromtimestamp if f == 'date' else datetime.datetime.utcfromtimestamp, t)
    r = outcome(prim, f, t)
    ensure(r.ok == want.ok, 'timestamps are taken as the library does')
    if r.ok:
        ensure(r.val.v == want.val, 'the date or moment of the timestamp')


@harness('bytes_sent', 'C16', inputs={'v': Union(Bytes(), Str()), 'f': OneOf('byte', 'binary')})
def bytes_sent(v, f):
    want = v if isinstance(v, bytes) else v.encode('utf-8')
    p = prim(f, v)
    ensure(p.v == want, 'the bytes given, or those of the text')
    ensure(base64.urlsafe_b64decode(p.to_json()) == want, 'sent in base64, in the alphabet for addresses')
    if not isinstance(v, bytes):
        ensure(str(p) == v, 'as text the text given')


@harness('bytes_read', 'C16', inputs={'v': OneOf(b'a', b'hello')})
def bytes_read(v):
    p = prim('byte', prim('byte', v).to_json())
    ensure(p.v == v, 'bytes read back are the ones sent')


@harness('bytes_in_parameters', 'C16', inputs={'v': OneOf(b'a', b'hello')})
def bytes_in_parameters(v):
    p = prim('byte', v)
    ensure(str(p) == base64.urlsafe_b64encode(v).decode('utf-8'), 'bytes are sent in base64 outside of bodies, too')


@harness('uuids', 'C16', inputs={'n': Int(0, 2 ** 128 - 1)})
def uuids(n):
    u = uuid.UUID(int=n)
    p = prim('uuid', u)
    ensure(p.v == u, 'the identifier given')
    ensure(p.to_json() == str(u), 'sent in canonical text')
    ensure(str(p) == str(u), 'also outside of bodies')
    ensure(prim('uuid', p.to_json()).v == u, 'sent and read back, the same identifier')
    ensure(prim('uuid', u.bytes).v == u, 'also from its bytes')


@harness('uuid_texts', 'C16', inputs={'t': Str(ex=['12345678-1234-5678-1234-567812345678', '{12345678123456781234567812345678}', '1234567812345678', '12345678-1234-5678-1234-56781234567', ' 12345678-1234-5678-1234-567812345678', '12345678-1234-5678-1234-567812345678\n', 'urn:uuid:12345678-1234-5678-1234-567812345678', 'x'])})
def uuid_texts(t):
    want = outcome(uuid.UUID, t)
    r = outcome(prim, 'uuid', t)
    ensure(r.ok == want.ok, 'exactly the texts of identifiers are read')
    if r.ok:
        ensure(r.val.v == want.val, 'as their identifier')


@harness('uuid_bytes', 'C16', inputs={'b': Bytes()}, covers=['refused'], examples=[{'b': {'b': 'abcdefghijklmnop'}}, {'b': {'b': '\xff' * 16}}])
def uuid_bytes(b):
    r = outcome(prim, 'uuid', b)
    if len(b) == 16:
        ensure(r.ok, 'sixteen bytes are an identifier')
        ensure(r.val.v.bytes == b, 'of these bytes')
    else:
        cover('refused')
        ensure(not r.ok, 'others are none')
