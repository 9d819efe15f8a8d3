"""Scalar types: how to declare them, values, independent text encoding, alternative and invalid spellings."""

import datetime as dt
import decimal
import enum
import ipaddress
import pathlib
import random
import string
import uuid
from typing import *  # noqa

import pydantic as pd

PRELUDE = '''
import datetime as dt, decimal, enum, ipaddress, pathlib, uuid, typing
from functools import cached_property
from collections import deque
from typing import *
from typing_extensions import TypedDict, Annotated, NotRequired, TypeAliasType
import pydantic as pd
from pydantic import BaseModel, RootModel, Field
from harness.prims import Color, Kind, Code, Level, upper_after, ident, ident_w, ex_none, ex_empty, ex_many, ex_even, hex_in, hex_out, plain_in, void_in, void_out, Mood, Vague
'''


def ex_none(v):
    return v is None


def ex_empty(v):
    return v is None or isinstance(v, (str, int, list, tuple, dict, set, frozenset)) and not v


def ex_many(v):
    return isinstance(v, (str, list, tuple, dict, set, frozenset)) and len(v) > 1


def ex_even(v):
    return isinstance(v, (str, int)) and len(str(v)) % 2 == 0


EXCLUDES = {f.__name__: f for f in (ex_none, ex_empty, ex_many, ex_even)}


class Color(str, enum.Enum):
    RED = 'red'
    GREEN = 'green & blue'
    NONE = 'none'


class Vague:
    """An object that nothing can be asked."""

    def __bool__(self):
        raise ValueError('neither true nor false')

    __len__ = __eq__ = __iter__ = lambda self, *args: self.__bool__()
    __hash__ = object.__hash__


class Kind(str, enum.Enum):
    K0 = 'k0'
    K1 = 'k1'
    K2 = 'k2'
    K3 = 'k3'
    K4 = 'k4'
    K5 = 'k5'
    V0 = 'v0'
    V1 = 'v1'
    V2 = 'v2'
    V3 = 'v3'
    V4 = 'v4'
    V5 = 'v5'


class Code(enum.Enum):
    A = 'a'
    B = 'B-2'


class Mood(enum.StrEnum):
    GOOD = 'good'
    BAD = 'Bad '


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 20


def ident(v):
    return v


def ident_w(v, handler):
    return handler(v)


def hex_in(v):
    return int(v[1:], 16) if isinstance(v, str) and v[:1] == 'x' else v


def hex_out(v):
    return 'x%x' % v if isinstance(v, int) else str(v)


def plain_in(v):
    if isinstance(v, str):
        return int(v.removeprefix('n'))
    if isinstance(v, int):
        return v
    raise ValueError('not a number')


def void_in(v):
    return 0 if v in ('', None) else v


def void_out(v):
    return v or None


def upper_after(v):
    return v.upper()


ALPHA = string.ascii_letters + string.digits
SPECIAL = ['&', '<', '>', '"', "'", ']]>', '&amp;', '<!-- -->', '\n', '\t', ' ', '  ', 'é', '€', '\u2028', '\U0001f600',
           '\ufffd', '{x}', '%s', '{sourceline}', '\\', '\xa0', '#', '0', 'None', 'true', 'a', 'Z', '.', ':', '/', '\x85']


def text(rng, lo=1, hi=8, strip=False):
    n = rng.randint(lo, hi)
    s = ''.join(rng.choice(SPECIAL) if rng.random() < 0.3 else rng.choice(ALPHA) for _ in range(n))
    if strip:
        s = s.strip() or 'x'
    return s


def word(rng, lo=1, hi=6):
    w = ''.join(rng.choice(string.ascii_lowercase) for _ in range(rng.randint(lo, hi)))
    return w if w != 'id' else 'ide'      # lxml restricts the values of xml:id


def _int(rng):
    return rng.choice([0, 1, -1, 7, 42, 2**31, -2**63, 10**30, rng.randint(-10**6, 10**6)])


def _float(rng):
    return rng.choice([0.0, -0.0, 0.1, 1.0, -2.5, 1e300, 5e-324, float('inf'), float('-inf'), rng.uniform(-1e6, 1e6), 1e16])


def _dec(rng):
    return rng.choice([decimal.Decimal(s) for s in ('0', '1.10', '-0.001', '1E+10', '123456789.123456789', '-0')])


def _date(rng):
    return dt.date(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28))


def _tz(rng):
    return rng.choice([None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=3)), dt.timezone(-dt.timedelta(minutes=90))])


def _time(rng):
    return dt.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 1, 500000, 999999]))


def _datetime(rng):
    return dt.datetime.combine(_date(rng), _time(rng)).replace(tzinfo=_tz(rng))


def _td(rng):
    return dt.timedelta(days=rng.randint(-400, 400), seconds=rng.randint(0, 86399), microseconds=rng.choice([0, 1, 250000]))


def _bytes(rng):
    return text(rng).encode('utf-8')


class Prim:
    def __init__(self, name, expr, gen, invalid=(), variants=(), pytype=None, hashable=True, exact=True, needs_text=True):
        self.name = name
        self.expr = expr
        self.gen = gen
        self.invalid = list(invalid)
        self.variants = variants      # other valid spellings: raw string, or callable(rng)
        self.hashable = hashable
        ns = {}
        exec(PRELUDE, ns)
        self.type = eval(expr, ns)
        self.adapter = pd.TypeAdapter(self.type)

    def encode(self, v):
        return encode_json(self.adapter.dump_python(v, mode='json'))

    def decode(self, raw):
        return self.adapter.validate_python(raw, strict=False)

    def valid_raw(self, rng):
        if self.variants and rng.random() < 0.3:
            v = rng.choice(list(self.variants))
            return v(rng) if callable(v) else v
        return self.encode(self.gen(rng))


def encode_json(j):
    """Text of the JSON form of a scalar."""
    if j is None:
        return ''
    if j is True:
        return 'true'
    if j is False:
        return 'false'
    if type(j) is str:
        return j
    if isinstance(j, str):
        return str.__str__(j)
    if type(j) is int:
        return '%d' % j
    if isinstance(j, int):
        return '%d' % int(j)
    if type(j) is float:
        return float.__repr__(j)
    raise TypeError('not a scalar: %r' % (j,))


def scalar_key(v):
    """Identity of a scalar: type and value."""
    t = type(v).__name__
    if isinstance(v, (dt.datetime, dt.time)):
        return t, v.isoformat()
    if isinstance(v, enum.Enum):
        return t, v.name
    return t, repr(v)


class Registry(dict):
    """Kinds by name; 'lit:a|b' is a literal of the given strings, 'elit:k0|v0' of members of Kind."""

    def __missing__(self, name):
        pre, colon, values = name.partition(':')
        if pre not in ('lit', 'elit') or not colon:
            raise KeyError(name)
        values = values.split('|')
        if pre == 'elit':
            values = [Kind(v) for v in values]
        shown = [str(v) if pre == 'elit' else repr(v) for v in values]
        p = Prim(name, 'Literal[%s]' % ', '.join(shown), lambda r: r.choice(values), ['?'])
        self[name] = p
        return p


PRIMS = Registry((p.name, p) for p in [
    Prim('int', 'int', _int, ['x', '1.5', '0x10', '--1'], ['+5', '007', '5.0', '1_000', ' 12 ']),
    Prim('float', 'float', _float, ['x', '1,5'], ['1', '1e3', 'NaN', 'Infinity', ' 2.5']),
    Prim('bool', 'bool', lambda r: r.random() < 0.5, ['2', 'maybe'], ['1', '0', 'True', 'FALSE', 'yes', 'off', 't']),
    Prim('str', 'str', text),
    Prim('word', 'str', word),
    Prim('bytes', 'bytes', _bytes),
    Prim('decimal', 'decimal.Decimal', _dec, ['x', 'NaN'], ['1_0', '00.50']),
    Prim('date', 'dt.date', _date, ['2020-13-01', 'x'], ['2020-02-29', '2020-02-29T00:00:00']),
    Prim('time', 'dt.time', _time, ['25:00', 'x'], ['10:20', '01:02:03.5']),
    Prim('datetime', 'dt.datetime', _datetime, ['x', '2020-01-01T25:00:00'], ['2020-01-01 10:20', '2020-01-01T10:20:30Z']),
    Prim('timedelta', 'dt.timedelta', _td, ['x'], ['PT1H', '-P1DT2H', '1 days, 02:00:00']),
    Prim('uuid', 'uuid.UUID', lambda r: uuid.UUID(int=r.getrandbits(128)), ['x', '1234'],
         ['{12345678-1234-5678-1234-567812345678}', '12345678123456781234567812345678']),
    Prim('url', 'pd.AnyUrl', lambda r: pd.AnyUrl('http://%s.com/%s?a=1&b=%s' % (word(r), word(r), word(r))),
         ['x', 'http://'], ['HTTP://EXAMPLE.com']),
    Prim('httpurl', 'pd.HttpUrl', lambda r: pd.HttpUrl('https://%s.org/%s' % (word(r), word(r))), ['ftp://a.b', 'zz']),
    Prim('ip4', 'ipaddress.IPv4Address', lambda r: ipaddress.IPv4Address(r.getrandbits(32)), ['1.2.3', 'x']),
    Prim('ip6net', 'ipaddress.IPv6Network', lambda r: ipaddress.IPv6Network('%x::/64' % r.randint(1, 0xffff)), ['x']),
    Prim('path', 'pathlib.Path', lambda r: pathlib.Path('/%s/%s' % (word(r), word(r)))),
    Prim('color', 'Color', lambda r: r.choice(list(Color)), ['blue']),
    Prim('code', 'Code', lambda r: r.choice(list(Code)), ['b']),
    Prim('level', 'Level', lambda r: r.choice(list(Level)), ['2', 'x'], [' 1']),
    Prim('literal', "Literal['a', 'b b', '3']", lambda r: r.choice(['a', 'b b', '3']), ['c', 'A']),
    Prim('posint', 'pd.PositiveInt', lambda r: r.randint(1, 999), ['0', '-3', 'x']),
    Prim('bounded', 'Annotated[str, pd.StringConstraints(min_length=2, max_length=5)]', lambda r: word(r, 2, 5),
         ['a', 'toolong']),
    Prim('pattern', "Annotated[str, pd.StringConstraints(pattern='^[A-Z][0-9]+$')]",
         lambda r: 'ABC'[r.randint(0, 2)] + str(r.randint(0, 99)), ['a1', 'A']),
    Prim('upper', 'Annotated[str, pd.AfterValidator(upper_after)]', lambda r: word(r).upper(), [], [word]),
    Prim('bytesize', 'pd.ByteSize', lambda r: pd.ByteSize(r.randint(0, 10**6)), ['x'], ['1kb', '2 MiB']),
    Prim('hex', 'Annotated[int, pd.BeforeValidator(hex_in), pd.PlainSerializer(hex_out, return_type=str)]',
         lambda r: r.randint(0, 999), ['xyz', '-', '1.5'], ['12', 'x0f']),
    Prim('plainv', 'Annotated[int, pd.PlainValidator(plain_in)]', lambda r: r.randint(-5, 999), ['x', '1.5', 'n'], ['n12', '012']),
    Prim('void', 'Annotated[int, pd.BeforeValidator(void_in), pd.PlainSerializer(void_out, return_type=Optional[int])]',
         lambda r: r.choice([0, 0, r.randint(0, 99)]), ['x', '1.5'], ['', '0']),
    Prim('dsn', 'pd.PostgresDsn', lambda r: pd.PostgresDsn('postgres://%s:p@%s:1,%s:2/db' % (word(r), word(r), word(r))), ['x', 'http://a.b']),
    Prim('mood', 'Mood', lambda r: r.choice(list(Mood)), ['Bad', 'GOOD']),
    Prim('ip6if', 'ipaddress.IPv6Interface', lambda r: ipaddress.IPv6Interface('%x::1/64' % r.randint(1, 0xffff)), ['x']),
    Prim('naive', 'pd.NaiveDatetime', lambda r: _datetime(r).replace(tzinfo=None), ['2020-01-01T00:00:00Z', 'x']),
    Prim('aware', 'pd.AwareDatetime', lambda r: _datetime(r).replace(tzinfo=dt.timezone.utc), ['2020-01-01T00:00:00', 'x']),
])

COMMON = ['int', 'str', 'float', 'bool', 'word', 'date', 'decimal', 'color', 'uuid', 'literal', 'posint', 'hex']
ALL = [n for n in PRIMS if n != 'void']      # its zero is an empty text
FALLIBLE = [n for n, p in PRIMS.items() if p.invalid]
HASHABLE = [n for n in ALL]
KEYS = ['pattern', 'upper', 'bool', 'hex', 'lit:aa|b-b|c.c', 'elit:k0|k1|v0', 'elit:v0|v1|v2']


if __name__ == '__main__':
    rng = random.Random(1)
    for name, p in PRIMS.items():
        for _ in range(300):
            v = p.gen(rng)
            raw = p.encode(v)
            back = p.decode(raw)
            assert scalar_key(back) == scalar_key(v), (name, v, raw, back)
            p.decode(p.valid_raw(rng))
        for raw in p.invalid:
            try:
                p.decode(raw)
            except pd.ValidationError:
                pass
            else:
                raise AssertionError((name, raw))
    print('ok', len(PRIMS))
