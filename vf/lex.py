"""Independent model of the simple types: lexical space, values and facets as XML Schema defines them."""
import datetime as dt
import decimal
import math
import re
from fractions import Fraction

STRINGS = ['string', 'anyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'base64Binary', 'duration']
RANGES = {
    'integer': (None, None),
    'nonNegativeInteger': (0, None), 'nonPositiveInteger': (None, 0),
    'negativeInteger': (None, -1), 'positiveInteger': (1, None),
    'long': (-2**63, 2**63 - 1), 'int': (-2**31, 2**31 - 1), 'short': (-2**15, 2**15 - 1), 'byte': (-128, 127),
    'unsignedLong': (0, 2**64 - 1), 'unsignedInt': (0, 2**32 - 1), 'unsignedShort': (0, 2**16 - 1), 'unsignedByte': (0, 255),
}
INTEGERS = list(RANGES)
FLOATS = ['double', 'float']
NUMBERS = INTEGERS + ['decimal'] + FLOATS
TIMES = ['date', 'dateTime', 'time']
BUILTINS = STRINGS + ['boolean'] + NUMBERS + TIMES

CLASS_NAMES = {b: b[0].upper() + b[1:] for b in BUILTINS}


class Invalid(ValueError):
    pass


# --- text -> value key -------------------------------------------------------
_TZ = r'(?P<tz>Z|[-+]\d\d:\d\d)?'
_DATE = re.compile(r'(?P<y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d)' + _TZ, re.A)
_DATETIME = re.compile(r'(?P<y>\d{4})-(?P<m>\d\d)-(?P<d>\d\d)T(?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d)(?P<f>\.\d+)?' + _TZ, re.A)
_TIME = re.compile(r'(?P<H>\d\d):(?P<M>\d\d):(?P<S>\d\d)(?P<f>\.\d+)?' + _TZ, re.A)


def _zone(text):
    """Offset in minutes."""
    if text is None:
        return None
    if text == 'Z':
        return 0
    hours, minutes = int(text[1:3]), int(text[4:6])
    if minutes > 59 or hours * 60 + minutes > 14 * 60:
        raise Invalid(text)
    return (hours * 60 + minutes) * (-1 if text[0] == '-' else 1)


def denote(builtin, text):
    """Key of the value which a text denotes, raises Invalid if it is not in the lexical space."""
    if builtin in STRINGS:
        return text
    text = text.strip(' \t\r\n')
    if builtin == 'boolean':
        if text not in ('true', 'false', '1', '0'):
            raise Invalid(text)
        return text in ('true', '1')
    if builtin in RANGES:
        if not re.fullmatch(r'[-+]?[0-9]+', text):
            raise Invalid(text)
        value = int(text)
        low, high = RANGES[builtin]
        if (low is not None and value < low) or (high is not None and value > high):
            raise Invalid(text)
        return Fraction(value)
    if builtin == 'decimal':
        if not re.fullmatch(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)', text):
            raise Invalid(text)
        return Fraction(text.rstrip('.') if not text.startswith('.') else '0' + text) if not re.match(r'[-+]\.', text) \
            else Fraction(text[0] + '0' + text[1:])
    if builtin in FLOATS:
        if text in ('INF', '+INF', '-INF', 'NaN'):
            return {'INF': math.inf, '+INF': math.inf, '-INF': -math.inf, 'NaN': 'NaN'}[text]
        if not re.fullmatch(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?', text):
            raise Invalid(text)
        return float(text)
    try:
        if builtin == 'date':
            m = _DATE.fullmatch(text)
            d = dt.date(int(m['y']), int(m['m']), int(m['d']))
            return ('date', d.year, d.month, d.day, _zone(m['tz']))
        m = (_DATETIME if builtin == 'dateTime' else _TIME).fullmatch(text)
        fraction = Fraction('0' + m['f']) if m['f'] else Fraction(0)
        if builtin == 'dateTime':
            d = dt.datetime(int(m['y']), int(m['m']), int(m['d']), int(m['H']), int(m['M']), int(m['S']))
            return ('dateTime', d.year, d.month, d.day, d.hour, d.minute, d.second, fraction, _zone(m['tz']))
        d = dt.time(int(m['H']), int(m['M']), int(m['S']))
        return ('time', d.hour, d.minute, d.second, fraction, _zone(m['tz']))
    except (TypeError, ValueError, AttributeError) as e:
        raise Invalid(text) from e


# --- Python value -> key -----------------------------------------------------
def _offset(tz, at=None):
    if tz is None:
        return None
    offset = tz.utcoffset(at)
    return None if offset is None else Fraction(int(offset.total_seconds()), 60)


def key(builtin, value):
    """Key of a Python value of a type, None if the Python type is not one that denotes a value of it."""
    if builtin in STRINGS:
        return value if isinstance(value, str) else None
    if builtin == 'boolean':
        return value if isinstance(value, bool) else None
    if builtin in NUMBERS:
        if isinstance(value, bool):
            return None
        if builtin in FLOATS:
            value = float(value)
            return 'NaN' if value != value else value
        if isinstance(value, float):
            # Written with the shortest decimal that reads back as this float.
            return Fraction(repr(value)) if math.isfinite(value) else None
        return Fraction(value)
    if builtin == 'date':
        if isinstance(value, dt.datetime) or not hasattr(value, 'year') or hasattr(value, 'hour'):
            return None
        return ('date', value.year, value.month, value.day, _offset(getattr(value, 'tzinfo', None)))
    if builtin == 'dateTime':
        if not isinstance(value, dt.datetime):
            return None
        return ('dateTime', value.year, value.month, value.day, value.hour, value.minute, value.second,
                Fraction(value.microsecond, 10**6), _offset(value.tzinfo, value))
    if builtin == 'time':
        if not isinstance(value, dt.time):
            return None
        return ('time', value.hour, value.minute, value.second, Fraction(value.microsecond, 10**6), _offset(value.tzinfo))
    raise AssertionError(builtin)


def expected_read(builtin, text):
    """Key of the value soapfish documents for a text: no time zone is UTC for dateTime and time, microseconds."""
    k = denote(builtin, text)
    if builtin in ('dateTime', 'time'):
        fraction = Fraction(int(k[-2] * 10**6), 10**6)
        k = k[:-2] + (fraction, 0 if k[-1] is None else k[-1])
    return k


# --- Random values -----------------------------------------------------------
WORDS = ['', 'a', 'ab', 'Hello World', ' lead', 'trail ', ' both ', '<tag/>', '&amp;', 'a & b < c > d', '"quoted"', "it's",
         ']]>', 'naïve', '日本語', '\U0001f600 emoji', 'line\nbreak', 'tab\there', 'cr\rhere', '\r\n', '  ', '\n', 'nil', 'true',
         '0', '-1', '1e5', 'None', '${x}', '{{ y }}', '%s', '\\d', '<!-- c -->', '<?pi?>', '&#65;', '\x7f', '\x85', '\u2028',
         'x' * 300, '\ufffd', '\xa0nbsp\xa0', "<![CDATA[x]]>", 'xmlns="u"', '\ufeffbom', 'é', 'é']


def random_text(rng):
    if rng.random() < 0.6:
        return rng.choice(WORDS)
    alphabet = 'abcXYZ019 <>&"\'\t\n\r;#=/\\-_.:é€\u4e2d\U0001f40d'
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 12)))


def random_zone(rng, none=True):
    choices = [0, 0, 60, -60, 330, -210, 345, 14 * 60, -14 * 60, -30, 30, 1, -1, -719]
    minutes = rng.choice(choices + ([None] * 3 if none else []))
    return None if minutes is None else dt.timezone(dt.timedelta(minutes=minutes))


def random_value(rng, builtin):
    """A Python value which the built-in type has to accept and which survives a round trip."""
    if builtin == 'string':
        return random_text(rng)
    if builtin == 'anyURI':
        return rng.choice(['http://example.com/a?b=c&d=e#f', 'urn:x:y', '', 'a%20b', '../rel/path'])
    if builtin == 'QName':
        return rng.choice(['a', 'xs:b', 'local-name', '_x.y'])
    if builtin == 'NMTOKEN':
        return rng.choice(['a', '1-2', 'x.y:z', '--'])
    if builtin == 'NMTOKENS':
        return rng.choice(['a', 'a b', '1 2 3'])
    if builtin == 'base64Binary':
        return rng.choice(['', 'AAEC', 'aGVsbG8=', '//8='])
    if builtin == 'duration':
        return rng.choice(['P1Y2M3DT4H5M6S', 'PT0S', '-P1D', 'PT1.5S'])
    if builtin == 'boolean':
        return rng.random() < 0.5
    if builtin in RANGES:
        low, high = RANGES[builtin]
        pool = [0, 1, -1, 7, 10, 100, -100, 2**31, -2**31 - 1, 2**63, 10**20, -10**20, 255, 256, 127, -128, 65535]
        pool += [x for x in (low, high) if x is not None]
        pool += [x + d for x in (low, high) if x is not None for d in (-1, 1)]
        pool += [rng.randint(-1000, 1000)]
        return rng.choice([x for x in pool if (low is None or x >= low) and (high is None or x <= high)])
    if builtin == 'decimal':
        return rng.choice([0, 1, -1, 10, 1000000, 0.5, -0.5, 0.1, 3.14, -2.75, 1e-7, 123456.789, 1e21, 1e15, 12345678.25,
                           rng.randint(-10**6, 10**6), round(rng.uniform(-1000, 1000), 3), -0.0, 100.0, 1e-300, 2**53])
    if builtin in FLOATS:
        return rng.choice([0.0, 1.0, -1.5, 0.1, 1e300, 1e-300, 1e22, -1e16, math.inf, -math.inf, math.nan, 5e-324, 3, -7,
                           rng.uniform(-1e6, 1e6)])
    year = rng.choice([1, 33, 476, 999, 1000, 1582, 1899, 1900, 1970, 2000, 2016, 2024, 9999])
    month = rng.choice([1, 2, 12, rng.randint(1, 12)])
    day = rng.choice([1, 28, rng.randint(1, 28)] + ([29] if month == 2 and year in (2000, 2016, 2024) else []) +
                     ([31] if month in (1, 12) else []))
    if builtin == 'date':
        from soapfish.xsd_types import XSDDate
        zone = random_zone(rng)
        return dt.date(year, month, day) if zone is None and rng.random() < 0.5 else XSDDate(year, month, day, tzinfo=zone)
    clock = rng.choice([(0, 0, 0), (23, 59, 59), (12, 30, 0), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
    micro = rng.choice([0, 0, 0, 500000, 1, 999999, 120000, 1000])
    zone = random_zone(rng, none=False)
    if builtin == 'dateTime':
        return dt.datetime(year, month, day, *clock, micro, tzinfo=zone)
    return dt.time(*clock, micro, tzinfo=zone)


def write(rng, builtin, k, plain=False):
    """Write the value with this key, in a random valid spelling unless plain."""
    def zone(minutes):
        if minutes is None:
            return ''
        if minutes == 0 and not plain:
            return rng.choice(['Z', '+00:00', '-00:00'])
        minutes = int(minutes)
        return f'{"-" if minutes < 0 else "+"}{abs(minutes) // 60:02d}:{abs(minutes) % 60:02d}'

    def fraction(value):
        if not value and (plain or rng.random() < 0.8):
            return ''
        text = f'{int(value * 10**6):06d}'.rstrip('0') or '0'
        return '.' + text + ('' if plain else rng.choice(['', '0', '00']))

    if builtin in STRINGS:
        return k
    if builtin == 'boolean':
        text = ('true' if k else 'false') if plain else rng.choice([['false', '0'], ['true', '1']][k])
    elif builtin in RANGES:
        digits = str(abs(int(k)))
        sign = '-' if k < 0 else ''
        if not plain:
            sign = sign or rng.choice(['', '', '+', '-' if k == 0 and builtin != 'positiveInteger' else '+'])
            digits = rng.choice(['', '', '0', '000']) + digits
        text = sign + digits
    elif builtin == 'decimal':
        scaled, places = abs(k), 0
        while scaled.denominator != 1:
            scaled, places = scaled * 10, places + 1
        digits = str(scaled.numerator).rjust(places + 1, '0')
        text = ('-' if k < 0 else '') + digits[:len(digits) - places] + ('.' + digits[len(digits) - places:] if places else '')
        if not plain:
            if '.' in text:
                text += rng.choice(['', '0', '000'])
            else:
                text += rng.choice(['', '', '.0', '.', '.00'])
            if k >= 0:
                text = rng.choice(['', '', '+', '00']) + text
    elif builtin in FLOATS:
        text = 'NaN' if k == 'NaN' else '-INF' if k == -math.inf else 'INF' if k == math.inf else repr(k)
        if not plain and k not in ('NaN', math.inf, -math.inf):
            text = rng.choice([text, text.upper(), f'{k:.17e}', ('+' if k >= 0 and not text.startswith('-') else '') + text])
    elif builtin == 'date':
        text = f'{k[1]:04d}-{k[2]:02d}-{k[3]:02d}{zone(k[4])}'
    elif builtin == 'dateTime':
        text = f'{k[1]:04d}-{k[2]:02d}-{k[3]:02d}T{k[4]:02d}:{k[5]:02d}:{k[6]:02d}{fraction(k[7])}{zone(k[8])}'
    else:
        text = f'{k[1]:02d}:{k[2]:02d}:{k[3]:02d}{fraction(k[4])}{zone(k[5])}'
    if not plain:
        text = rng.choice(['', '', '', ' ', '\n  ']) + text + rng.choice(['', '', '', ' ', '\t\n'])
    return text


# --- Facets ------------------------------------------------------------------
def _all(chars):
    return lambda s: all(c in chars for c in s)


_LOWER, _UPPER, _DIGITS = 'abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', '0123456789'

# pattern -> (independent predicate, matching texts, not matching texts)
STRING_PATTERNS = {
    '[a-z]+': (lambda s: s != '' and _all(_LOWER)(s), ['a', 'abc', 'zz'], ['', 'A', 'abc1', '1abc', 'ab c', 'abc\n', 'a\nb']),
    '[A-Z]{2}[0-9]{3}': (lambda s: len(s) == 5 and _all(_UPPER)(s[:2]) and _all(_DIGITS)(s[2:]), ['AB123', 'ZZ000'],
                         ['AB12', 'AB1234', 'xAB123', 'ab123', ' AB123', 'AB123 ']),
    'a|bc': (lambda s: s in ('a', 'bc'), ['a', 'bc'], ['ac', 'abc', 'b', 'ab', '', 'xbc', 'ax']),
    '(ab)*': (lambda s: s == 'ab' * (len(s) // 2), ['', 'ab', 'abab'], ['a', 'aba', 'ba']),
    'x.z': (lambda s: len(s) == 3 and s[0] == 'x' and s[2] == 'z' and s[1] not in '\n\r', ['xyz', 'x z', 'x<z'],
            ['xz', 'xyyz', 'axyz', 'xyza']),
    '[^0-9]*': (lambda s: not any(c in _DIGITS for c in s), ['', 'ab', '& <'], ['1', 'a1b']),
    'LN-[A-Z]{3}': (lambda s: s[:3] == 'LN-' and len(s) == 6 and _all(_UPPER)(s[3:]), ['LN-KKY', 'LN-AAA'],
                    ['LN-KK', 'LN-KKYX', 'ln-KKY', 'LN_KKY']),
    r'\d{1,3}(\.\d{2})?': (lambda s: bool(s) and all(_all(_DIGITS)(x) for x in s.split('.')) and len(s.split('.')) < 3
                           and 1 <= len(s.split('.')[0]) <= 3 and len(s) - len(s.split('.')[0]) in (0, 3),
                           ['1', '12', '123.45'], ['', '1234', '1.2', '1.', '.12']),
}
NUMBER_PATTERNS = {
    '[0-9]{2}': (lambda s: len(s) == 2 and _all(_DIGITS)(s), [10, 42, 99], [1, 100, -10, 0]),
    '-?[1-9][0-9]*': (lambda s: s.lstrip('-')[:1] in tuple('123456789') and _all(_DIGITS)(s.removeprefix('-')), [1, -5, 77], [0]),
    '[13579]+': (lambda s: s != '' and _all('13579')(s), [1, 35, 999], [2, 0, 12, -1]),
    '1|22': (lambda s: s in ('1', '22'), [1, 22], [12, 2, 122, 11]),
}

# These ones are only for decimal. There is no exponent in the text of a number.
DECIMAL_PATTERNS = {
    r'-?[0-9]+\.[0-9]{2}': (lambda s: s.count('.') == 1 and _all(_DIGITS)(s.removeprefix('-').replace('.', '')) and len(s.split('.')[1]) == 2
                            and s.removeprefix('-')[:1] != '.', [0.25, -1.75, decimal.Decimal('12.34'), 1234567.25], [1, 0.5, 2.125, -3, decimal.Decimal('1E-7')]),
    r'[0-9]+': (lambda s: s != '' and _all(_DIGITS)(s), [0, 7, 12.0, decimal.Decimal('1E+3'), 1e16, 1e22], [-1, 0.5, 1e-7, decimal.Decimal('1.5')]),
    r'0\.0*1': (lambda s: s[:2] == '0.' and s[2:].rstrip('1') == '0' * (len(s) - 3) and s[-1] == '1', [0.1, 0.001, 1e-7, decimal.Decimal('1E-9')], [0, 1, 0.25, -0.1, 0.11, 1.1]),
    r'-?1(000)*': (lambda s: s.removeprefix('-')[:1] == '1' and s.removeprefix('-')[1:] == '000' * (len(s.removeprefix('-')) // 3), [1, -1000, decimal.Decimal('1E+6'), 1e18, decimal.Decimal('-1E+30')], [10, 0, 1e16, decimal.Decimal('1E+4'), 1000.5]),
}


def collapse(facets, text):
    mode = facets.get('whiteSpace')
    if mode in ('replace', 'collapse'):
        text = ''.join(' ' if c in '\t\n\r' else c for c in text)
    if mode == 'collapse':
        text = ' '.join(x for x in text.split(' ') if x)
    return text


def violated(builtin, facets, value):
    """Names of the facets which a value of the type violates."""
    bad = []
    if builtin in STRINGS:
        text = collapse(facets, value)
        if 'enumeration' in facets and text not in facets['enumeration']:
            bad.append('enumeration')
        if 'pattern' in facets and not STRING_PATTERNS[facets['pattern']][0](text):
            bad.append('pattern')
        if 'length' in facets and len(text) != facets['length']:
            bad.append('length')
        if 'minLength' in facets and len(text) < facets['minLength']:
            bad.append('minLength')
        if 'maxLength' in facets and len(text) > facets['maxLength']:
            bad.append('maxLength')
        return bad
    k = key(builtin, value)
    number = k if k != 'NaN' else math.nan
    if 'enumeration' in facets and not any(key(builtin, x) == k for x in facets['enumeration']):
        bad.append('enumeration')
    for name, test in (('minInclusive', lambda x: number >= x), ('minExclusive', lambda x: number > x),
                       ('maxInclusive', lambda x: number <= x), ('maxExclusive', lambda x: number < x)):
        if name in facets and not test(key(builtin, facets[name])):
            bad.append(name)
    if builtin == 'decimal' or builtin in RANGES:
        text = write(None, 'decimal', k, plain=True)
        if 'pattern' in facets and not {**NUMBER_PATTERNS, **DECIMAL_PATTERNS}[facets['pattern']][0](text):
            bad.append('pattern')
        digits = text.lstrip('-').replace('.', '').lstrip('0')
        if 'totalDigits' in facets and max(len(digits), places(value)) > facets['totalDigits']:
            bad.append('totalDigits')
        if 'fractionDigits' in facets and places(value) > facets['fractionDigits']:
            bad.append('fractionDigits')
    return bad


def places(value):
    """Number of fraction digits of a decimal."""
    text = write(None, 'decimal', key('decimal', value), plain=True)
    return len(text.split('.')[1]) if '.' in text else 0


def random_facets(rng, builtin):
    """Facets which leave some values, and a list of such values."""
    facets = {}
    if builtin == 'string':
        kind = rng.choice(['enumeration', 'pattern', 'length', 'minmax', 'minmax', 'whiteSpace', 'pattern+max'])
        if kind == 'enumeration':
            pool = ['a', 'b c', '', 'A&B', "it's", '"q"', 'ü', '<x>', 'nil', 'é', 'B', 'b', '0', 'false']
            facets['enumeration'] = rng.sample(pool, rng.randint(1, 4))
            good = list(facets['enumeration'])
        elif kind.startswith('pattern'):
            facets['pattern'] = rng.choice(list(STRING_PATTERNS))
            good = list(STRING_PATTERNS[facets['pattern']][1])
            if kind != 'pattern':
                facets['maxLength'] = rng.randint(2, 6)
        elif kind == 'length':
            facets['length'] = rng.choice([0, 1, 2, 3, 5])
            good = ['', 'a', 'é', '\U0001f600', 'ab', 'a b', 'abc', 'abcde', ' x ']
        elif kind == 'minmax':
            if rng.random() < 0.7:
                facets['minLength'] = rng.choice([0, 1, 2, 3])
            if rng.random() < 0.7 or not facets:
                facets['maxLength'] = facets.get('minLength', 0) + rng.choice([0, 1, 4])
            good = ['', 'a', 'ab', 'abc', 'abcd', '    ', 'a\nb', '日本', 'é' * 7, '\U0001f600']
        else:
            facets['whiteSpace'] = rng.choice(['replace', 'collapse', 'preserve'])
            if rng.random() < 0.5:
                facets['maxLength'] = 4
            good = ['a', ' a ', 'a  b', 'a\tb', '\n a', '', '  ', 'a\t\nb', '\n\n\n', '\t\t', 'a\n\n\n\nb', '\ta \nb\t', 'a\xa0\xa0b', '\u3000a', 'a\x85', '\u2028\u2003']
        if rng.random() < 0.1 and kind == 'enumeration':
            facets['maxLength'] = 30
    else:
        low, high = RANGES.get(builtin, (None, None))
        step = rng.choice([1, 10]) if builtin in RANGES else rng.choice([1, 0.5, 0.25, 100])
        start = rng.randint(-20, 20) * step
        if low is not None and start < low:
            start = low + rng.randint(0, 5)
        if high is not None and start > high:
            start = high - rng.randint(0, 20)
        if builtin in RANGES and rng.random() < 0.1:
            # Not all of these can be told apart as floating-point numbers.
            far = [x for x in (2**53 - 1, -2**53 - 3, 2**62, 2**63 - 50) if (low is None or low <= x) and (high is None or x <= high - 50)]
            start, step = rng.choice(far) if far else start, 1 if far else step
        # The string of a number might have an exponent.
        scale = 1 if builtin in RANGES or rng.random() < 0.8 else rng.choice([1e16, 2**-20])
        start, step = start * scale, step * scale
        end = start + rng.randint(2, 20) * step
        if high is not None and end > high:
            start, end = high - rng.randint(2, 20), high
        kind = rng.choice(['bounds', 'bounds', 'bounds', 'enumeration', 'digits', 'pattern'])
        if kind == 'enumeration':
            facets['enumeration'] = sorted({start, end, start + step})
            if builtin in FLOATS and rng.random() < 0.2:
                facets['enumeration'] += rng.choice([[math.inf], [-math.inf], [math.inf, -math.inf]])
            good = facets['enumeration']
        elif kind == 'digits' and builtin in RANGES:
            facets['totalDigits'] = rng.randint(1, 4)
            good = [0, 1, -1, 9, -9, 10, 99, 100, -100, 999, 9999]
        elif kind == 'digits' and builtin == 'decimal':
            facets['fractionDigits'] = rng.randint(1, 3)
            if rng.random() < 0.5:
                facets['totalDigits'] = rng.randint(3, 5)
            good = [0.5, 1.5, -2.5, 0.25, 12.75, -3.25, 0.125, 1.375, 10.5, 99.75]
            good = [x for x in good if places(x) == facets['fractionDigits']]
        elif kind == 'pattern' and builtin in RANGES:
            facets['pattern'] = rng.choice(list(NUMBER_PATTERNS))
            good = NUMBER_PATTERNS[facets['pattern']][1]
        else:
            if rng.random() < 0.75:
                facets[rng.choice(['minInclusive', 'minExclusive'])] = start
            if rng.random() < 0.75 or not facets:
                facets[rng.choice(['maxInclusive', 'maxExclusive'])] = end
            good = [start, end, start + step, end - step, start - step, end + step, start + 2 * step]
    good = [x for x in good if in_range(builtin, x) and not violated(builtin, facets, x)]
    if builtin == 'decimal' and rng.random() < 0.15:
        # Others are written in a shorter way, which is another number.
        number = lambda x: decimal.Decimal(x).normalize() if isinstance(x, (int, float)) and decimal.Decimal(x) == decimal.Decimal(repr(x)) else x
        facets = {k: v if k.endswith('Digits') else [number(x) for x in v] if isinstance(v, list) else number(v) for k, v in facets.items()}
    return facets, good


def in_range(builtin, value):
    low, high = RANGES.get(builtin, (None, None))
    return (low is None or value >= low) and (high is None or value <= high)
