"""C04: types and facets accept exactly the values they declare, everywhere."""
import datetime as dt
import math
from decimal import Decimal

from soapfish import xsd
from soapfish.xsd_types import XSDDate
from vf import gen, lex
from vf.core import Group

PROPERTY = 'C04'
RULE = ('A case declares a class with random simple types and facets and runs a history of assignments, appends, constructions '
        'and parses; distinct by type, facets, entry point and value; non-trivial when the type has a facet or the value is at '
        'the limit of the type.')
REQUIRED = {'accepted:set': 2000, 'rejected:set': 2000, 'accepted:init': 500, 'rejected:init': 500, 'accepted:append': 500,
            'rejected:append': 500, 'accepted:parse': 500, 'rejected:parse': 500, 'accepted:attribute': 300,
            'rejected:attribute': 300, 'rejected:undeclared': 100, 'rejected:full': 100, 'rejected:nil': 100,
            'accepted:nil': 100, 'accepted:none': 100, 'accepted:render': 300, 'rejected:render': 300, 'origin:init': 500, 'origin:class': 500, 'origin:both': 300}
for _facet in ('enumeration', 'pattern', 'length', 'minLength', 'maxLength', 'minInclusive', 'minExclusive', 'maxInclusive',
               'maxExclusive', 'totalDigits', 'fractionDigits', 'range', 'type'):
    REQUIRED[f'violated:{_facet}'] = 50
ASSUMPTIONS = ['Bounds and values of decimals are exact in binary where they are compared.']


# --- Types -------------------------------------------------------------------
def facets(rng, builtin):
    """Any combination of facets."""
    chosen = {}
    if builtin in lex.STRINGS:
        if builtin != 'string':
            # Only texts which are valid for the types.
            return {}
        if rng.random() < 0.3:
            chosen['enumeration'] = rng.sample(['', 'a', 'ab', 'b c', 'é', ' a', 'LN-KKY', '12', 'nil', "'", 'None', 'abc'], rng.randint(1, 5))
        if rng.random() < 0.3:
            chosen['pattern'] = rng.choice(list(lex.STRING_PATTERNS))
        if rng.random() < 0.15:
            chosen['length'] = rng.choice([0, 0, 1, 2, 3, 6])
        if rng.random() < 0.3:
            chosen['minLength'] = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < 0.3:
            chosen['maxLength'] = rng.choice([0, 0, 1, 2, 3, 6])
        if rng.random() < 0.2:
            chosen['whiteSpace'] = rng.choice(['preserve', 'replace', 'collapse'])
        return chosen
    if builtin not in lex.NUMBERS:
        return chosen
    whole = builtin in lex.RANGES
    number = lambda: rng.choice([0, 0, 1, -1, 10, -10, 100, 7, 5, -3, 127, 128, 300, 2**31] if whole or rng.random() < 0.5 else
                                [0.0, 0.5, -0.5, 2.25, -1.75, 10.0, 100.125, Decimal('0.25'), Decimal('-3.5')])
    if rng.random() < 0.25:
        chosen['enumeration'] = [number() for _ in range(rng.randint(1, 5))]
    for names in (('minInclusive', 'minExclusive'), ('maxInclusive', 'maxExclusive')):
        if rng.random() < 0.45:
            chosen[rng.choice(names)] = number()
    if builtin not in lex.FLOATS:
        if rng.random() < 0.2:
            chosen['totalDigits'] = rng.randint(1, 5)
        if rng.random() < 0.15:
            chosen['pattern'] = rng.choice(list(lex.NUMBER_PATTERNS) if whole else [*lex.NUMBER_PATTERNS, *lex.DECIMAL_PATTERNS])
        if rng.random() < 0.25 and not whole:
            chosen['fractionDigits'] = rng.randint(0, 3)
    return chosen


def make_type(mon, rng):
    """Returns (type for the declaration, gen.Simple)."""
    builtin = rng.choice(lex.BUILTINS + ['string'] * 8 + ['decimal'] * 3 + ['int', 'byte', 'positiveInteger', 'integer', 'double'])
    chosen = facets(rng, builtin)
    cls = getattr(xsd, lex.CLASS_NAMES[builtin])
    origin = rng.choice(['init', 'class', 'both'])
    if chosen:
        mon.event('origin:' + origin)
    if origin == 'init':
        type_ = cls(**chosen) if chosen or rng.random() < 0.5 else cls
    else:
        names = list(chosen)
        rng.shuffle(names)
        cut = len(names) if origin == 'class' else rng.randint(0, len(names))
        own, late = names[:cut], names[cut:]
        # Facets are spread over the levels of a hierarchy.
        for level in range(rng.randint(1, 3)):
            part = own if level == 0 and rng.random() < 0.4 else own[:rng.randint(0, len(own))]
            own = [n for n in own if n not in part]
            cls = type(f'Level{level}', (cls,), {n: chosen[n] for n in part})
        cls = type('Last', (cls,), {n: chosen[n] for n in own})
        type_ = cls(**{n: chosen[n] for n in late}) if late or rng.random() < 0.3 else cls
    return type_, gen.Simple(builtin, chosen)


def candidate(rng, simple):
    """A Python value near the limits of a type."""
    b, f = simple.builtin, simple.facets
    if b in lex.STRINGS:
        if b != 'string':
            return lex.random_value(rng, b)
        pool = ['', 'a', 'ab', 'abc', 'abcdef', 'é', 'é', '\U0001f600', ' ', '  a ', 'a\tb', '\n', 'a\n\nb', '\t\t\n', 'B', '1', '12', 'nil', 'None',
                'LN-KKY', 'LN-kky', 'bc', 'b c', ' b c', 'xyz']
        pool += f.get('enumeration', [])
        pool += [x + rng.choice(['', ' ', 'x', '\n']) for x in f.get('enumeration', [])]
        if 'pattern' in f:
            _, good, bad = lex.STRING_PATTERNS[f['pattern']]
            pool += (good + bad) * 2
        if 'whiteSpace' in f:
            pool += ['\n\n', 'a\t\tb', '\t\n\t\n', ' \n a\n\n', 'a \t b', 'b\nc', 'a\xa0\xa0b', '\u3000a', 'a\x85', 'a\u2028', '\u2003'] * 2
        for n in ('length', 'minLength', 'maxLength'):
            if n in f:
                pool += ['x' * max(0, f[n] + d) for d in (-1, 0, 1)]
                pool += ['é' * max(0, f[n] + d) for d in (0, 1)]
        return rng.choice(pool)
    if b in lex.NUMBERS:
        whole = b in lex.RANGES
        low, high = lex.RANGES.get(b, (None, None))
        pool = [0, 1, -1, 10, 42, 99, 100, -100, 999, 1000, 12345, 99999, 100000]
        limits = [x for x in (low, high) if x is not None]
        limits += [f[n] for n in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive') if n in f] * 3
        limits += f.get('enumeration', [])
        for x in limits:
            pool += [x, x - 1, x + 1] if whole else [x, x - 1, x + 1, x + type(x)(0.125) if not isinstance(x, int) else x + 0.5]
        if not whole:
            pool += [0.5, 0.25, -0.125, 1.5, 12.75, 0.0625, 1234.5, 99.9]
            if 'fractionDigits' in f:
                pool += [x for x in (1.5, 0.25, 2.125, 3.0625, 7, 120, -4.75)] * 2
        if b == 'decimal':
            pool += [1e-7, 1e16, -1e22, Decimal('1E+3'), Decimal('-2.5E+7'), Decimal('1E-9'), Decimal('0.001')]
        if b in lex.FLOATS and not f:
            pool += [math.inf, -math.inf, math.nan]
        if 'pattern' in f:
            _, good, bad = {**lex.NUMBER_PATTERNS, **lex.DECIMAL_PATTERNS}[f['pattern']]
            pool += good + bad
        return rng.choice(pool)
    return lex.random_value(rng, b)


WRONG = {
    'string': [1, 0, True, b'bytes', ['a'], 1.5, object(), ('a',), {}],
    'integer': ['', 'x', '1.0', '1e3', '0x10', 1.5, 1.0, Decimal(1), [1], b'1', object(), '1 2', '--1', '1_000', '٣'],
    'decimal': ['', 'x', '1,5', '0x1', '1.2.3', [1.5], b'1.5', object(), 1j, '1_0', math.inf, math.nan, 'INF', 'NaN', '--1'],
    'float': ['', 'x', '1,5', '0x1', '1.2.3', [1.5], b'1.5', object(), 1j, '1_0', 'inf', 'nan', 'Infinity'],
    'boolean': [2, -1, 'true', 'yes', '', 0.5, [], object(), 'false'],
    'date': ['2016-01-01', 0, dt.datetime(2016, 1, 1), dt.time(1), object(), ''],
    'dateTime': [dt.date(2016, 1, 1), dt.time(1), 0, 1.5, 'x', '', '2016-01-01', '2016-13-01T00:00:00Z', XSDDate(2016, 1, 1)],
    'time': [dt.datetime(2016, 1, 1), dt.date(2016, 1, 1), 5, 'x', '', '25:00:00', '12:60:00', '12'],
}


def wrong(rng, builtin):
    family = 'string' if builtin in lex.STRINGS else 'integer' if builtin in lex.RANGES else 'float' if builtin in lex.FLOATS else builtin
    return rng.choice(WRONG[family])


def verdict(simple, value):
    """Names of the facets which are violated, or None if the case is not decided here."""
    b, f = simple.builtin, simple.facets
    if b == 'decimal' and isinstance(value, float) and not math.isfinite(value):
        return ['type']
    bad = list(lex.violated(b, f, value)) if f else []
    if not lex.in_range(b, value) if b in lex.NUMBERS and b not in lex.FLOATS else False:
        bad.append('range')
    if b == 'decimal' and 'fractionDigits' in f and lex.places(value) < f['fractionDigits']:
        if not bad:
            return None  # Known finding, see the group fraction.
        bad.append('fewer')
    return bad


def normal(simple, value):
    return simple.normal(value)


# --- Histories ---------------------------------------------------------------
class Shadow:
    """What a class and an instance must look like."""

    def __init__(self, mon, rng):
        self.mon, self.rng = mon, rng
        self.fields = {}
        body = {}
        for i in range(rng.randint(1, 4)):
            type_, simple = make_type(mon, rng)
            kind = rng.choice(['element', 'element', 'attribute', 'list'])
            name = f'f{i}'
            field = gen.Field(kind, name, rng.choice([name, f'F-{i}']), simple, min=0, nillable=kind != 'attribute' and rng.random() < 0.4)
            if kind == 'element':
                body[name] = xsd.Element(type_, tagname=field.tag, nillable=field.nillable, minOccurs=rng.randint(0, 1))
            elif kind == 'list':
                field.max = rng.choice([None, 1, 2, 4])
                body[name] = xsd.ListElement(type_, field.tag, maxOccurs=field.max, nillable=field.nillable)
            else:
                body[name] = xsd.Attribute(type_, tagname=field.tag, use=xsd.Use.OPTIONAL)
            self.fields[name] = field
        self.cls = type('Subject', (xsd.ComplexType,), body)
        self.object = None
        self.state = {}

    def fresh(self):
        self.object = self.cls()
        self.state = {n: [] if f.kind == 'list' else None for n, f in self.fields.items()}

    def check(self, what, context):
        for name, field in self.fields.items():
            expected, actual = self.state[name], getattr(self.object, name)
            if field.kind == 'list':
                ok = isinstance(actual, list) and len(actual) == len(expected) \
                    and all(field.type.same(e, a) for e, a in zip(expected, actual))
            else:
                ok = field.type.same(expected, actual)
            self.mon.check(ok, f'state-{what}', f'{field}: is {actual!r} instead of {expected!r} after {context}')

    def pick(self, field):
        """A value and what has to happen: (value, names of violations, stored value)."""
        rng, simple = self.rng, field.type
        if rng.random() < 0.15:
            return wrong(rng, simple.builtin), ['type'], None
        while True:
            value = candidate(rng, simple)
            bad = verdict(simple, value)
            if bad is not None:
                return value, bad, None if bad else normal(simple, value)


def outcome(mon, entry, field, value, bad, call, context=''):
    """Run an operation and compare what happened with the verdict."""
    mon.event(f'{"rejected" if bad else "accepted"}:{entry}')
    for name in bad:
        mon.event(f'violated:{name}')
    if field.type.facets or bad:
        mon.judged(entry, field.kind, field.type.builtin, repr(sorted(field.type.facets.items())), repr(value)[:80])
    else:
        mon.judged()
    try:
        result = call()
    except ValueError as e:
        if not bad:
            mon.violation(f'refused-{entry}-{"+".join(sorted(field.type.facets)) or field.type.builtin}',
                          f'{field} refuses {value!r}: {e} {context}')
            return False, None
        return False, None
    except Exception as e:
        mon.violation(f'exception-{entry}', f'{field} with {value!r} raises {e!r} {context}')
        return False, None
    if bad:
        mon.violation(f'accepted-{entry}-{"+".join(bad)}', f'{field} accepts {value!r} {context}')
        return False, None
    return True, result


def history(mon, rng, index):
    shadow = Shadow(mon, rng)
    shadow.fresh()
    mon.sample(fields=list(shadow.fields.values()))
    for _ in range(25):
        field = rng.choice(list(shadow.fields.values()))
        operation = rng.random()
        if operation < 0.05:
            name = rng.choice(['nothing', 'F', field.py + '_', field.py.upper(), '__x', 'xml_', 'a b'])
            mon.event('rejected:undeclared')
            try:
                setattr(shadow.object, name, 1)
            except (ValueError, AttributeError):
                pass
            else:
                mon.violation('accepted-undeclared', f'Assignment to {name!r} is accepted')
            mon.check(not hasattr(shadow.object, name), 'undeclared', f'Attribute {name!r} exists')
        elif operation < 0.12 and field.kind != 'list':
            bad = [] if field.nillable else ['nil']
            ok, _ = outcome(mon, 'nil', field, 'NIL', bad, lambda: setattr(shadow.object, field.py, xsd.NIL))
            if ok:
                shadow.state[field.py] = xsd.NIL
        elif operation < 0.17 and field.kind != 'list':
            ok, _ = outcome(mon, 'none', field, None, [], lambda: setattr(shadow.object, field.py, None))
            if ok:
                shadow.state[field.py] = None
        elif operation < 0.3:
            initialise(mon, rng, shadow)
        elif field.kind == 'list':
            value, bad, stored = shadow.pick(field)
            if rng.random() < 0.1:
                value, bad, stored = xsd.NIL, [] if field.nillable else ['nil'], xsd.NIL
                entry = 'nil'
            else:
                entry = 'append'
            items = shadow.state[field.py]
            if not bad and field.max is not None and len(items) >= field.max:
                entry, bad = 'full', ['maxOccurs']
            ok, _ = outcome(mon, entry, field, value, bad, lambda: getattr(shadow.object, field.py).append(value))
            if ok:
                items.append(stored)
            elif len(items) and rng.random() < 0.2:
                shadow.fresh()
        else:
            value, bad, stored = shadow.pick(field)
            ok, _ = outcome(mon, 'set', field, value, bad, lambda: setattr(shadow.object, field.py, value))
            if ok:
                shadow.state[field.py] = stored
        shadow.check('history', field)


def initialise(mon, rng, shadow):
    chosen = [f for f in shadow.fields.values() if f.kind != 'list' and rng.random() < 0.6]
    if not chosen:
        return
    values, problems = {}, []
    for field in chosen:
        value, bad, stored = shadow.pick(field)
        if bad and problems:
            continue
        values[field.py] = (value, bad, stored, field)
        problems += bad
    target = next((v for v in values.values() if v[1]), next(iter(values.values())))
    if rng.random() < 0.1:
        mon.event('rejected:undeclared')
        try:
            shadow.cls(**{n: v[0] for n, v in values.items() if not v[1]}, undeclared=1)
        except (ValueError, AttributeError, TypeError):
            pass
        else:
            mon.violation('accepted-undeclared', 'Undeclared constructor argument is accepted')
        return
    ok, created = outcome(mon, 'init', target[3], target[0], problems, lambda: shadow.cls(**{n: v[0] for n, v in values.items()}))
    if ok:
        old = shadow.object, shadow.state
        shadow.fresh()
        shadow.object = created
        shadow.state.update({n: v[2] for n, v in values.items()})
        shadow.check('init', values)
        if rng.random() < 0.5:
            shadow.object, shadow.state = old


# --- Parsing -----------------------------------------------------------------
def parse(mon, rng, index):
    """The same limits hold for text."""
    shadow = Shadow(mon, rng)
    for _ in range(6):
        field = rng.choice(list(shadow.fields.values()))
        value = candidate(rng, field.type)
        bad = verdict(field.type, value)
        if bad is None or (isinstance(value, Decimal) and 'fractionDigits' in field.type.facets):
            continue
        entry = 'attribute' if field.kind == 'attribute' else 'parse'
        if field.type.key(value) is None:
            continue
        if field.type.builtin in lex.RANGES or field.type.builtin in lex.FLOATS or field.type.builtin == 'decimal' and bad != ['type']:
            k = field.type.key(value)
            text = lex.write(rng, 'integer' if field.type.builtin in lex.RANGES else field.type.builtin, k,
                             plain=bool({'pattern', 'fractionDigits', 'totalDigits'} & set(field.type.facets)) or 'range' in bad)
        elif field.type.builtin == 'decimal':
            continue
        else:
            text = field.type.text(rng, value)
        if field.kind == 'attribute' and any(c in text for c in '\t\n\r'):
            pass  # Written with character references.
        node = gen.Node(None, 'root')
        text_type = gen.Simple('string')
        if field.kind == 'attribute':
            node.attributes.append((field.tag, text_type, text))
        else:
            count = rng.randint(1, field.max or 3) if field.kind == 'list' else 1
            for _ in range(count):
                child = gen.Node(None, field.tag)
                child.leaf = (text_type, text)
                node.children.append(child)
        xml = gen.Speller(rng, 'utf-8', dict(gen.WILD, unknown=0, lexical=False)).document(node).encode()
        ok, parsed = outcome(mon, entry, field, value, bad, lambda: shadow.cls.parsexml(xml), f'in {xml!r}')
        if ok:
            actual = getattr(parsed, field.py)
            for x in (actual if field.kind == 'list' else [actual]):
                mon.check(field.type.same(value, x), 'parsed-value', f'{field}: {x!r} instead of {value!r}', document=xml)
            if field.kind == 'list':
                mon.check(len(actual) == count, 'parsed-items', f'{field}: {len(actual)} items instead of {count}', document=xml)


def parse_occurrence(mon, rng, index):
    """nil and the length of lists when parsing."""
    nillable, maximum = rng.random() < 0.5, rng.choice([1, 2, 3, None])
    kind = rng.choice(['element', 'list', 'list'])
    inner = type('Inner', (xsd.ComplexType,), {'x': xsd.Element(xsd.Int, minOccurs=0)})
    type_, text = rng.choice([(xsd.String, 'a'), (xsd.Int, '1'), (inner, '<x>1</x>'), (xsd.Boolean, 'true')])
    field = gen.Field(kind, 'item', 'item', gen.Simple('string'), max=maximum, nillable=nillable)
    if kind == 'element':
        cls = type('Holder', (xsd.ComplexType,), {'item': xsd.Element(type_, nillable=nillable)})
        items, maximum = 1, 1
    else:
        cls = type('Holder', (xsd.ComplexType,), {'item': xsd.ListElement(type_, 'item', maxOccurs=maximum, nillable=nillable)})
        items = rng.randint(0, 5)
    nils = {i for i in range(items) if rng.random() < 0.25}
    body = ''.join(f'<item xmlns:i="{gen.XSI}" i:nil="{rng.choice(["1", "true"])}"/>' if i in nils else f'<item>{text}</item>'
                   for i in range(items))
    bad = []
    if maximum is not None and items > maximum:
        bad.append('maxOccurs')
    if nils and not nillable:
        bad.append('nil')
    xml = f'<root>{body}</root>'
    ok, parsed = outcome(mon, 'full' if 'maxOccurs' in bad else 'nil' if nils else 'parse', field, xml, bad, lambda: cls.parsexml(xml))
    if ok:
        actual = parsed.item if kind == 'list' else [parsed.item] if items else []
        mon.check([x is xsd.NIL for x in actual] == [i in nils for i in range(items)], 'parsed-nil', f'{xml} became {actual}')


def objects(mon, rng, index):
    """Fields of complex types accept instances of this type or a derived one."""
    base = type('Base', (xsd.ComplexType,), {'a': xsd.Element(xsd.Int, minOccurs=0)})
    derived = type('Derived', (base,), {'b': xsd.Element(xsd.Int, minOccurs=0)})
    other = type('Base', (xsd.ComplexType,), {'a': xsd.Element(xsd.Int, minOccurs=0)})
    declared = rng.choice([base, derived])
    cls = type('Holder', (xsd.ComplexType,), {
        'one': xsd.Element(rng.choice([declared, declared()]), minOccurs=rng.randint(0, 1)),
        'many': xsd.ListElement(declared, 'item', maxOccurs=3),
    })
    holder = cls()
    one, many = None, []
    for _ in range(8):
        value = rng.choice([base(), derived(), other(), 'x', 1, {'a': 1}, [], object(), base, 0, '', ()])
        good = isinstance(value, declared)
        if rng.random() < 0.5:
            field, call = gen.Field('element', 'one', 'one', gen.Simple('string')), lambda: setattr(holder, 'one', value)
            ok, _ = outcome(mon, 'set', field, value, [] if good else ['type'], call)
            one = value if ok else one
        else:
            full = len(many) >= 3
            field, call = gen.Field('list', 'many', 'item', gen.Simple('string')), lambda: holder.many.append(value)
            ok, _ = outcome(mon, 'append', field, value, [] if good and not full else ['type'], call)
            many += [value] if ok else []
        mon.check(holder.one is one and len(holder.many) == len(many) and all(a is b for a, b in zip(holder.many, many)),
                  'state-objects', f'Object fields are {holder.one!r} and {holder.many!r}')
    try:
        cls(one=rng.choice([other(), 'x', 5]))
    except ValueError:
        pass
    else:
        mon.violation('accepted-init-type', 'Constructor accepts an object of another type')


def rendering(mon, rng, index):
    """The limits of lists hold however the items got into them, also when an object is rendered."""
    minimum, maximum, nillable = rng.choice([None, 0, 1, 2, 3]), rng.choice([None, 1, 2, 4, xsd.UNBOUNDED]), rng.random() < 0.5
    if maximum is not None and minimum is not None and minimum > maximum:
        minimum = 1
    inner = type('Inner', (xsd.ComplexType,), {'x': xsd.Element(xsd.Int, minOccurs=0)})
    type_, make = rng.choice([(xsd.String, lambda: 'a'), (xsd.Int, lambda: 1), (inner, lambda: inner(x=1)), (xsd.Boolean(), lambda: False)])
    required = rng.random() < 0.5
    body = {'INDICATOR': rng.choice([xsd.Sequence, xsd.Sequence, xsd.Choice]),
            'items': xsd.ListElement(type_, 'item', minOccurs=minimum, maxOccurs=maximum, nillable=nillable),
            'other': xsd.Element(xsd.String, minOccurs=0),
            'mark': xsd.Attribute(xsd.String, use=xsd.Use.REQUIRED if required else xsd.Use.OPTIONAL)}
    cls = type('Rendered', (xsd.ComplexType,), body)
    holder = type('Holder', (xsd.ComplexType,), {'it': xsd.Element(cls)})
    for _ in range(3):
        count = rng.choice([0, 0, 1, 2, 3, 5])
        values = [xsd.NIL if nillable and rng.random() < 0.3 else make() for _ in range(count)]
        how = rng.choice(['assign', 'extend', 'insert', 'slice', 'constructor'])
        obj = cls(items=list(values)) if how == 'constructor' else cls()
        if how == 'assign':
            obj.items = list(values)
        elif how == 'extend':
            obj.items.extend(values)
        elif how == 'insert':
            for x in reversed(values):
                obj.items.insert(0, x)
        elif how == 'slice':
            obj.items[:] = values
        choice = body['INDICATOR'] is xsd.Choice
        if choice and not count:
            obj.other = 'x'
        if required or rng.random() < 0.5:
            obj.mark = 'm'
        bad = []
        if minimum and count < minimum and not (choice and not count):
            bad.append('minOccurs')
        if maximum is not None and count > maximum:
            bad.append('maxOccurs')
        if required and rng.random() < 0.2:
            obj.mark = None
            bad.append('required')
        target = holder(it=obj) if rng.random() < 0.4 else obj
        field = gen.Field('list', 'items', 'item', gen.Simple('string'), min=minimum, max=maximum, nillable=nillable)
        ok, xml = outcome(mon, 'render', field, (how, count), bad, lambda: target.xml('a'))
        if ok:
            mon.check(xml.count(b'<item') == count, 'rendered-items', f'{xml.count(b"<item")} items instead of {count}', document=xml)


def fraction(mon, rng, index):
    """Known finding: fractionDigits refuses values with fewer digits."""
    n, value = [(2, 1), (2, 0.5), (1, 3), (3, 0.25)][index]
    cls = type('Amount', (xsd.ComplexType,), {'x': xsd.Element(xsd.Decimal(fractionDigits=n))})
    mon.judged('fraction', n, value)
    try:
        cls(x=value)
    except ValueError as e:
        mon.violation('fraction-digits-exact', f'fractionDigits={n} refuses {value}: {e}')


def groups(tier):
    n = 50 if tier == 'thorough' else 4
    return [Group('history', history, 2500 * n), Group('parse', parse, 4000 * n), Group('occurrence', parse_occurrence, 1500 * n),
            Group('objects', objects, 400 * n), Group('rendering', rendering, 500 * n), Group('fraction', fraction, 4)]
