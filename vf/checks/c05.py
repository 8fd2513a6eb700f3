"""C05: built-in simple types map text to value and back as XML Schema defines."""
import datetime as dt
import math
import random
import re
import struct
from fractions import Fraction

from lxml import etree

from soapfish import xsd
from soapfish.xsd_types import XSDDate
from vf import gen, lex
from vf.core import Group

PROPERTY = 'C05'
RULE = ('A case writes values of a built-in type, or reads valid, mutated or invalid text of it, in an element, list item or '
        'attribute; distinct by type, direction and text; texts which are the plain form of a value are trivial when read.')
REQUIRED = {'written': 5000, 'libxml2-valid': 3000, 'read:valid': 5000, 'read:invalid': 3000, 'zones': 1000, 'seconds': 1000}
for _b in lex.BUILTINS:
    REQUIRED[f'write:{_b}'] = 20
    REQUIRED[f'valid:{_b}'] = 20
    if _b not in lex.STRINGS:
        REQUIRED[f'invalid:{_b}'] = 50
ASSUMPTIONS = ['Decimals are judged up to 15 significant digits (known finding of C01 beyond).',
               'Not judged: empty text and "nil" of types other than strings, zones written without minutes or colon or beyond '
               '14:00, 24:00:00, years of more than four digits.']

CLASSES = {}
PLACES = ('element', 'list', 'attribute')


def classes(builtin):
    if builtin not in CLASSES:
        t = getattr(xsd, lex.CLASS_NAMES[builtin])
        CLASSES[builtin] = type('Holder', (xsd.ComplexType,), {
            'element': xsd.Element(t, minOccurs=0), 'list': xsd.ListElement(t, 'item'),
            'attribute': xsd.Attribute(t, use=xsd.Use.OPTIONAL)})
    return CLASSES[builtin]


_VALIDATORS = {}


def validator(builtin):
    if builtin not in _VALIDATORS:
        source = f'''<s:schema xmlns:s="http://www.w3.org/2001/XMLSchema"><s:element name="r"><s:complexType><s:sequence>
            <s:element name="element" type="s:{builtin}" minOccurs="0"/>
            <s:element name="item" type="s:{builtin}" minOccurs="0" maxOccurs="unbounded"/></s:sequence>
            <s:attribute name="attribute" type="s:{builtin}"/></s:complexType></s:element></s:schema>'''
        _VALIDATORS[builtin] = etree.XMLSchema(etree.fromstring(source))
    return _VALIDATORS[builtin]


# --- Values to text ----------------------------------------------------------
def write_value(mon, rng, builtin, value, place, libxml2=True):
    cls = classes(builtin)
    simple = gen.Simple(builtin)
    try:
        instance = cls()
        if place == 'list':
            instance.list.append(value)
        else:
            setattr(instance, place, value)
        xml = instance.xml('r')
    except ValueError as e:
        mon.violation(f'refused-{builtin}', f'{value!r} is refused: {e}')
        return
    root = etree.fromstring(xml)
    text = root.get('attribute') if place == 'attribute' else root[0].text or ''
    mon.event('written')
    mon.event(f'write:{builtin}')
    mon.judged('write', builtin, text)
    try:
        denoted = lex.denote(builtin, text)
    except lex.Invalid:
        mon.violation(f'written-{builtin}', f'{value!r} is written as {text!r} which is not in the lexical space')
        return
    expected = simple.key(value)
    mon.check(denoted == expected, f'written-{builtin}', f'{value!r} is written as {text!r} which denotes {denoted}')
    if libxml2 and gen.within_libxml2(builtin, value):
        mon.event('libxml2-valid')
        mon.check(validator(builtin).validate(root), f'written-invalid-{builtin}',
                  f'{value!r} is written as {text!r}: {validator(builtin).error_log.last_error}')


class Summer(dt.tzinfo):
    """A zone with daylight saving time."""

    def utcoffset(self, at):
        return dt.timedelta(hours=1 if at is None or not 4 <= at.month <= 9 else 2)

    def dst(self, at):
        return self.utcoffset(at) - dt.timedelta(hours=1)


def write(mon, rng, index):
    for _ in range(12):
        builtin = rng.choice(lex.BUILTINS)
        value = lex.random_value(rng, builtin)
        if builtin == 'dateTime' and rng.random() < 0.3:
            value = value.replace(tzinfo=rng.choice([None, Summer()]))
        elif builtin == 'time' and rng.random() < 0.2:
            value = value.replace(tzinfo=None)
        elif builtin == 'date' and rng.random() < 0.1:
            value = value if isinstance(value, XSDDate) else dt.date(value.year, value.month, value.day)
        elif builtin in lex.FLOATS and rng.random() < 0.6:
            value = random_double(rng)
        elif builtin == 'decimal' and rng.random() < 0.5:
            value = random_decimal(rng)
        elif builtin in lex.RANGES and rng.random() < 0.5:
            value = random_integer(rng, builtin)
        # libxml2 applies whitespace rules of the token types.
        libxml2 = builtin not in ('anyURI', 'QName', 'base64Binary')
        write_value(mon, rng, builtin, value, rng.choice(PLACES), libxml2)


class Day(dt.date):
    """A date of a zone, not one of soapfish."""

    tzinfo = None

    @classmethod
    def of(cls, year, month, day, tzinfo):
        made = cls(year, month, day)
        made.tzinfo = tzinfo
        return made


def dates(mon, rng, index):
    """Dates are equal when they are the same day of the same zone, and may come from any object like a date."""
    for _ in range(20):
        def one():
            zone = rng.choice([None, dt.timezone.utc, dt.timezone(dt.timedelta(minutes=rng.choice([0, 60, -60, 1, 840, -840, 330])))])
            return rng.choice([2015, 2016]), rng.choice([1, 2]), rng.choice([1, 2]), zone
        a, b = one(), one()
        if rng.random() < 0.5:
            b = tuple(y if rng.random() < 0.2 else x for x, y in zip(a, b))
        same = a[:3] == b[:3] and (a[3] is None) == (b[3] is None) and (a[3] is None or a[3].utcoffset(None) == b[3].utcoffset(None))
        mon.event('dates-equal' if same else 'dates-differ')
        left, right = XSDDate(*a[:3], tzinfo=a[3]), XSDDate(*b[:3], tzinfo=b[3])
        mon.check((left == right) == same and (left != right) == (not same), 'equal-date', f'{left!r} == {right!r} is {left == right}')
        text = lex.write(None, 'date', lex.key('date', right), plain=True)
        write_value(mon, rng, 'date', Day.of(*b), rng.choice(PLACES))
        item = classes('date').parsexml(document(rng, 'element', text)).element
        if isinstance(item, XSDDate):
            mon.check((left == item) == same, 'equal-date', f'{left!r} == {item!r}, read from {text}, is {left == item}')


def random_double(rng):
    while True:
        value = struct.unpack('d', struct.pack('Q', rng.getrandbits(64)))[0]
        if value == value:
            return value


def random_decimal(rng):
    digits = rng.randint(1, 15)
    value = rng.choice([1, -1]) * rng.randrange(10 ** digits)
    exponent = rng.randint(0, min(digits + 6, 20))
    return value if not exponent else float(f'{value}e-{exponent}')


def random_integer(rng, builtin):
    low, high = lex.RANGES[builtin]
    low = -10 ** rng.randint(1, 40) if low is None else low
    high = 10 ** rng.randint(1, 40) if high is None else high
    return rng.choice([low, high, rng.randint(low, high), max(low, min(high, rng.randint(-300, 300)))])


# --- Text to values ----------------------------------------------------------
def unjudged(builtin, text):
    """Texts outside of what the property talks about."""
    stripped = text.strip(' \t\r\n')
    if builtin in lex.STRINGS:
        return False
    if text in ('', 'nil') or stripped == '':
        return True
    if builtin in lex.TIMES:
        if re.search(r'24:00:00', stripped) or re.match(r'-?\d{5,}', stripped):
            return True
        m = re.search(r'[-+](\d\d)(:?[0-5]\d)?$', stripped[10:] if builtin != 'time' else stripped)
        if m and (':' not in (m.group(2) or '') or int(m.group(1)) >= 14):
            return int(m.group(1)) != 14 or m.group(2) != ':00'
    if builtin == 'decimal':
        try:
            k = lex.denote(builtin, text)
        except lex.Invalid:
            return False
        digits = re.sub(r'[^0-9]', '', stripped).strip('0')
        return len(digits) > 15 or abs(k) > 10**300
    return False


def document(rng, place, text):
    node = gen.Node(None, 'r')
    string = gen.Simple('string')
    if place == 'attribute':
        node.attributes.append(('attribute', string, text))
    else:
        child = gen.Node(None, 'item' if place == 'list' else 'element')
        child.leaf = (string, text)
        node.children.append(child)
    style = rng.choice([gen.PLAIN, dict(gen.WILD, lexical=False, unknown=0)])
    return gen.Speller(rng, 'utf-8', style).document(node).encode()


def read_text(mon, rng, builtin, text, place):
    if unjudged(builtin, text):
        mon.event('unjudged')
        return
    xml = document(rng, place, text)
    try:
        expected = lex.expected_read(builtin, text)
        valid = True
    except lex.Invalid:
        expected, valid = None, False
    mon.event(f'read:{"valid" if valid else "invalid"}')
    mon.event(f'{"valid" if valid else "invalid"}:{builtin}')
    mon.judged(builtin, text)
    try:
        parsed = classes(builtin).parsexml(xml)
    except ValueError as e:
        if valid:
            mon.violation(f'refused-text-{builtin}', f'{text!r} is refused: {e}', document=xml)
        return
    except Exception as e:
        mon.violation(f'exception-{builtin}', f'{text!r} raises {e!r}', document=xml)
        return
    value = parsed.list[0] if place == 'list' else getattr(parsed, place)
    if not valid:
        mon.violation(f'misread-{builtin}', f'{text!r} is not valid but read as {value!r}', document=xml)
        return
    actual = None if value is None else lex.key(builtin, value)
    right_type = {'boolean': bool, 'date': (dt.date, XSDDate), 'dateTime': dt.datetime, 'time': dt.time}.get(
        builtin, str if builtin in lex.STRINGS else int if builtin in lex.RANGES else object)
    mon.check(actual == expected and isinstance(value, right_type), f'read-{builtin}',
              f'{text!r} is read as {value!r} instead of {expected}', document=xml)


def random_valid(rng, builtin):
    if builtin in lex.RANGES and rng.random() < 0.5:
        return lex.write(rng, builtin, Fraction(random_integer(rng, builtin)))
    if builtin in lex.FLOATS and rng.random() < 0.5:
        return rng.choice([repr(random_double(rng)), '1E5', '-1.5e-3', '.5', '5.', '+2', '00.100', 'INF', '-INF', 'NaN', '1e400',
                           '-0', '0.0', '1E+10', '4.9E-324', '12.78e-2'])
    if builtin == 'decimal' and rng.random() < 0.5:
        return rng.choice(['.5', '5.', '+.5', '-.25', '-0', '+0.0', '0005', '-007.50', '123456789012345', '1000000000000000000',
                           lex.write(rng, builtin, lex.key(builtin, random_decimal(rng)))])
    value = lex.random_value(rng, builtin)
    text = lex.write(rng, builtin, lex.key(builtin, value))
    if builtin in ('dateTime', 'time', 'date') and rng.random() < 0.2:
        text = re.sub(r'(Z|[-+]\d\d:\d\d)(\s*)$', r'\2', text)
    if builtin in ('dateTime', 'time') and rng.random() < 0.2:
        text = re.sub(r'(:\d\d)(\.\d+)?((Z|[-+]\d\d:\d\d)?\s*)$', rf'\1.{rng.randrange(10 ** 9):09d}\3', text) \
            if not re.search(r'[-+]\d\d:\d\d\s*$', text) else text
    return text


def read(mon, rng, index):
    for _ in range(10):
        builtin = rng.choice(lex.BUILTINS)
        read_text(mon, rng, builtin, random_valid(rng, builtin), rng.choice(PLACES))


CHARS = '0123456789+-.:TZeE xINFa_,/\xa0\u0661\n\t'


def mutate(mon, rng, index):
    """Text near the lexical space, the reference decides on which side it is."""
    for _ in range(10):
        builtin = rng.choice([b for b in lex.BUILTINS if b not in lex.STRINGS])
        text = random_valid(rng, builtin)
        for _ in range(rng.randint(1, 2)):
            i = rng.randint(0, len(text))
            kind = rng.random()
            if kind < 0.35:
                text = text[:i] + rng.choice(CHARS) + text[i:]
            elif kind < 0.6:
                text = text[:i] + text[i + 1:]
            elif kind < 0.85:
                text = text[:i] + rng.choice(CHARS) + text[i + 1:]
            elif kind < 0.93:
                text = text[:i] + text[i:] + text[:i]
            else:
                text = text.swapcase()
        read_text(mon, rng, builtin, text, rng.choice(PLACES))


INVALID = {
    'boolean': ['True', 'FALSE', 'yes', 'no', '2', '-1', '01', '10', 'truefalse', 'true false', 'tru', 't', 'on', 'None', '1.0', '00'],
    'integer': ['1.0', '1.', '.1', '1e3', '0x1F', '1 000', '1,000', '1_000', '--1', '+-1', '+', '-', 'one', '١', '1L', 'INF', 'NaN',
                '1\xa0', 'true', '½', '²', '1-', '- 1', '1\x85'],
    'decimal': ['1e3', '1E-2', '1,5', '1.2.3', '.', '+', '-', '--1', 'INF', 'NaN', '-INF', '1_0', '0x1', '1 2', 'abc', '٣.٥', '1d', '1.5f',
                'infinity', '1/2', '$1'],
    'float': ['inf', 'nan', 'Infinity', '-infinity', 'NAN', 'Inf', '1e', 'e5', '1e5.0', '1,5', '1.2.3', '.', '+', '0x1p3', '1 2', '1_0',
              '-NaN', '+NaN', 'abc', '1d', 'INFINITY', '1e+', '--1', '٣'],
    'date': ['2016-13-01', '2016-00-10', '2016-01-32', '2016-02-30', '2015-02-29', '1900-02-29', '2016-1-1', '16-01-01', '2016-01-00',
             '2016/01/01', '01-01-2016', '20160101', '2016-01', '2016', '2016-01-01T00:00:00', '2016-01-01X', '2016-01-01 Z', '0000-01-01',
             '2016-01-01+1:00', '2016-01-01Z00', '2016-01-01+00:60', '2016-01-01+', '2016-01-01ZZ', 'today', '-2016-01-01', '2016-01-01+ab:cd',
             '2016-W01-1', '２０１６-01-01', '2016-01-01z', '+2016-01-01'],
    'dateTime': ['2016-01-01', '2016-01-01T', '2016-01-01T00:00', '2016-01-01T00', '2016-13-01T00:00:00', '2016-02-30T00:00:00',
                 '2016-01-01T25:00:00', '2016-01-01T00:60:00', '2016-01-01T00:00:60', '2016-01-01T00:00:61', '2016-01-01 00:00:00',
                 '2016-01-01t00:00:00', '2016-01-01T00:00:00.', '2016-01-01T00:00:00z', '2016-01-01T00:00:00+00:60',
                 '2016-01-01T00:00:00 Z', '20160101T000000', '2016-01-01T00:00:00,5', '2016-01-01T0:00:00', '2016-1-01T00:00:00',
                 'now', '2016-01-01T00:00:00X', '2016-01-01T00:00:00+1:00', '-2016-01-01T00:00:00', '2016-01-01T24:01:00',
                 '0000-01-01T00:00:00', '2016-01-01T00:00:00ZZ', '2016-01-01T-1:00:00', '2016-001T00:00:00'],
    'time': ['25:00:00', '00:60:00', '00:00:60', '00:00', '00', '000000', '1:00:00', '00:00:0', '00:00:00.', '00:00:00,5', '00:00:00z',
             '00:00:00 Z', 'T00:00:00', '00:00:00+00:60', '00:00:00+1:00', '-01:00:00', '24:00:01', 'noon', '00:00:00ZZ', '12:00:00 PM',
             '2016-01-01T00:00:00', '00-00-00', '00:00:00X'],
}


def invalid(mon, rng, index):
    for _ in range(12):
        builtin = rng.choice([b for b in lex.BUILTINS if b not in lex.STRINGS])
        family = 'integer' if builtin in lex.RANGES else 'float' if builtin in lex.FLOATS else builtin
        text = rng.choice(INVALID[family])
        if builtin in lex.RANGES and rng.random() < 0.5:
            low, high = lex.RANGES[builtin]
            outside = [x for x in (low - 1 if low is not None else None, high + 1 if high is not None else None,
                                   low - 10**30 if low is not None else None, high * 10 + 9 if high is not None else None,
                                   high + 2**32 if high is not None else None) if x is not None]
            if not outside:
                continue
            text = str(rng.choice(outside))
        if rng.random() < 0.2:
            text = rng.choice([' ', '\n']) + text
        read_text(mon, rng, builtin, text, rng.choice(PLACES))


# --- Systematic parts --------------------------------------------------------
def zones(mon, rng, index):
    """Every zone offset in both directions."""
    for minutes in range(-840 + index * 60, min(-840 + index * 60 + 60, 841)):
        zone = dt.timezone(dt.timedelta(minutes=minutes))
        day = rng.randint(1, 28)
        for builtin, value in (('dateTime', dt.datetime(2016, 3, day, 23, 15, 1, tzinfo=zone)), ('time', dt.time(0, 30, 2, tzinfo=zone)),
                               ('date', XSDDate(2016, 3, day, tzinfo=zone))):
            mon.event('zones')
            write_value(mon, rng, builtin, value, rng.choice(PLACES))
            read_text(mon, rng, builtin, lex.write(None, builtin, lex.key(builtin, value), plain=True), rng.choice(PLACES))


def calendar(mon, rng, index):
    """Months of all years, including days which do not exist."""
    for _ in range(4):
        year, month = rng.choice([1, 4, 99, 100, 400, 999, 1000, 1600, 1700, 1900, 2000, 2004, 2100, 9999, rng.randint(1, 9999)]), rng.randint(1, 12)
        for day in range(0, 34):
            text = f'{year:04d}-{month:02d}-{day:02d}'
            read_text(mon, rng, 'date', text, 'element')
            read_text(mon, rng, 'dateTime', text + 'T12:00:00Z', 'element')
            try:
                write_value(mon, rng, 'date', dt.date(year, month, day), 'element')
                write_value(mon, rng, 'dateTime', dt.datetime(year, month, day, 1, 2, 3, tzinfo=dt.timezone.utc), 'attribute')
            except ValueError:
                pass
            mon.event('days')


def clock(mon, rng, index):
    """Times of a day, including those which do not exist, with fractions of seconds."""
    local = random.Random(index * 1000003 + mon.seed)
    for _ in range(60):
        h, m, s = local.randint(0, 25), local.randint(0, 61), local.randint(0, 61)
        fraction = local.choice(['', '.0', '.5', '.000001', '.999999', '.1234567', '.100000', '.9999999', '.0000004', f'.{local.randrange(10**6):06d}'])
        text = f'{h:02d}:{m:02d}:{s:02d}{fraction}'
        if h == 24:
            continue
        mon.event('seconds')
        read_text(mon, rng, 'time', text, 'element')
        read_text(mon, rng, 'dateTime', '2016-12-31T' + text + local.choice(['Z', '+01:00', '']), 'attribute')
        if h < 24 and m < 60 and s < 60:
            micro = local.choice([0, 1, 10, 999999, 500000, local.randrange(10**6)])
            write_value(mon, rng, 'time', dt.time(h, m, s, micro, tzinfo=dt.timezone.utc), 'element')
            write_value(mon, rng, 'dateTime', dt.datetime(1999, 12, 31, h, m, s, micro, tzinfo=dt.timezone.utc), 'list')


def limits(mon, rng, index):
    """Every integer type around all limits of all integer types."""
    points = sorted({x + d for r in lex.RANGES.values() for x in r if x is not None for d in range(-2, 3)})
    builtin = lex.INTEGERS[index]
    for value in points:
        for text in (str(value), f'+{value}' if value >= 0 else f'-00{-value}', f' {value}\n', f'{value}.0'):
            for place in PLACES:
                read_text(mon, rng, builtin, text, place)
        if lex.in_range(builtin, value):
            write_value(mon, rng, builtin, value, 'element')


def groups(tier):
    n = 60 if tier == 'thorough' else 4
    return [Group('write', write, 1500 * n), Group('read', read, 2000 * n), Group('mutate', mutate, 2000 * n),
            Group('invalid', invalid, 600 * n), Group('zones', zones, 29), Group('dates', dates, 60 * n), Group('calendar', calendar, 60 * n), Group('clock', clock, 60 * n),
            Group('limits', limits, len(lex.INTEGERS))]
