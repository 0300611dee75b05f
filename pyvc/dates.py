"""The part of datetime the library uses, after its documentation: proleptic Gregorian dates, ISO 8601 text, fixed offsets."""

DATES_SRC = '''
MINYEAR = 1
MAXYEAR = 9999


def _check(year, month, day):
    if not 1 <= year <= 9999:
        raise ValueError('year is out of range')
    if not 1 <= month <= 12:
        raise ValueError('month must be in 1..12')
    if not _in_month(year, month, day):
        raise ValueError('day is out of range for month')


class timedelta(object):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self._us = ((days + 7 * weeks) * 86400 + hours * 3600 + minutes * 60 + seconds) * 1000000 + milliseconds * 1000 + microseconds

    def __add__(self, other):
        return timedelta(microseconds=self._us + other._us)

    def __neg__(self):
        return timedelta(microseconds=-self._us)

    def __eq__(self, other):
        return isinstance(other, timedelta) and self._us == other._us

    def __ne__(self, other):
        return not (self == other)


class tzinfo(object):
    def utcoffset(self, dt):
        raise NotImplementedError

    def dst(self, dt):
        raise NotImplementedError

    def tzname(self, dt):
        raise NotImplementedError


class date(object):
    def __init__(self, year, month, day):
        _check(year, month, day)
        self.year = year
        self.month = month
        self.day = day

    @classmethod
    def fromtimestamp(cls, t):
        return cls(*_civil('local', t, 3))

    def isoformat(self):
        return '%04d-%02d-%02d' % (self.year, self.month, self.day)

    __str__ = isoformat

    def timetuple(self):
        return _timetuple(self.year, self.month, self.day)

    def __eq__(self, other):
        if isinstance(other, datetime) or not isinstance(other, date):
            return False
        return self.year == other.year and self.month == other.month and self.day == other.day

    def __ne__(self, other):
        return not (self == other)


class datetime(date):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        _check(year, month, day)
        if not 0 <= hour <= 23:
            raise ValueError('hour must be in 0..23')
        if not 0 <= minute <= 59:
            raise ValueError('minute must be in 0..59')
        if not 0 <= second <= 59:
            raise ValueError('second must be in 0..59')
        if not 0 <= microsecond <= 999999:
            raise ValueError('microsecond must be in 0..999999')
        self.year = year
        self.month = month
        self.day = day
        self.hour = hour
        self.minute = minute
        self.second = second
        self.microsecond = microsecond
        self.tzinfo = tzinfo

    @classmethod
    def utcfromtimestamp(cls, t):
        return cls(*_civil('utc', t, 7))

    @classmethod
    def fromtimestamp(cls, t):
        return cls(*_civil('local', t, 7))

    def __eq__(self, other):
        if not isinstance(other, datetime):
            return False
        a, b = self.utcoffset(), other.utcoffset()
        if (a is None) != (b is None):
            return False
        if a is not None and a != b:
            return _unknown('equality across zones')
        return (self.year == other.year and self.month == other.month and self.day == other.day and self.hour == other.hour and
                self.minute == other.minute and self.second == other.second and self.microsecond == other.microsecond)

    def __ne__(self, other):
        return not (self == other)

    def timetuple(self):
        return _timetuple(self.year, self.month, self.day, self.hour, self.minute, self.second)

    utctimetuple = timetuple

    def date(self):
        return date(self.year, self.month, self.day)

    def utcoffset(self):
        if self.tzinfo is None:
            return None
        o = self.tzinfo.utcoffset(self)
        if o is not None and not -86400000000 < o._us < 86400000000:
            raise ValueError('offset must be strictly between one day')
        return o

    def isoformat(self, sep='T'):
        s = '%04d-%02d-%02d%s%02d:%02d:%02d' % (self.year, self.month, self.day, sep, self.hour, self.minute, self.second)
        if self.microsecond:
            s += '.%06d' % self.microsecond
        o = self.utcoffset()
        if o is not None:
            us = o._us
            if us < 0:
                s += '-'
                us = -us
            else:
                s += '+'
            m = us // 60000000
            s += '%02d:%02d' % (m // 60, m % 60)
            rest = us % 60000000
            if rest:
                s += ':%02d' % (rest // 1000000)
                if rest % 1000000:
                    s += '.%06d' % (rest % 1000000)
        return s

    def __str__(self):
        return self.isoformat(' ')
'''


UUID_SRC = '''
class UUID(object):
    def __init__(self, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None):
        if bytes_le is not None or fields is not None or version is not None:
            _unknown('form of identifier')
        if (hex is None) + (bytes is None) + (int is None) != 2:
            raise TypeError('one of the hex, bytes, or int arguments must be given')
        if hex is not None:
            if not _isstr(hex):
                raise AttributeError('replace')
            if not _valid(hex):
                raise ValueError('badly formed hexadecimal UUID string')
            int = _value(hex)
        if bytes is not None:
            if len(bytes) != 16:
                raise ValueError('bytes is not a 16-char string')
            if _isstr(bytes):
                raise AssertionError(bytes)
            int = _number(bytes)
        self.int = int

    @property
    def bytes(self):
        return _bytes(self.int)

    @property
    def hex(self):
        return _hex(self.int)

    def __str__(self):
        return _text(self.int)

    def __eq__(self, other):
        return isinstance(other, UUID) and self.int == other.int

    def __ne__(self, other):
        return not (self == other)


def uuid4():
    return UUID(int=_fresh())
'''
