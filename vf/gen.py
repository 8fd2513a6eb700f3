"""Random models: declarations, instances, the documents they stand for and spellings of these documents."""
import itertools
import sys
import types

from soapfish import xsd

from . import lex

NIL = xsd.NIL
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
MISSING = object()
_counter = itertools.count()

# (tag, name of the Python attribute), many look alike on purpose.
NAMES = ['name', 'names', 'Name', 'name2', 'code', 'id', 'value', 'item', 'items', 'a', 'b', 'ab', 'ba', 'x', 'type', 'Type',
         'tail_number', 'total', 'Total', 'status', 'nilable', 'content', 'message1', 'key', 'keys', 'date', 'time', 'data',
         'self1', 'parent', 'child', 'children', 'text', 'tag', 'fields', 'unit', 'note', 'zip', 'count1', 'n1', 'n2', 'n3']
ODD_NAMES = ['import', 'class', 'from', 'tail-number', 'x.y', '\xe9t\xe9', 'donn\xe9es', '_p', 'None', 'v-2', 'a.b-c', 'def',
             'xsd', 'cls', 'create', 'xml', 'render', 'parsexml', 'self', 'SCHEMA', 'INDICATOR', 'schema', 'object', 'instance',
             '__init__', '__x', '_xmlelement', '_meta', '__class__', 'print', '\u212a1', 'caf\u0065\u0301', '\u2126x']
GROUP_NAMES = ['street', 'city', 'Street', 'zone', 'first', 'last', 'middle', 'lang', 'version']
TYPE_NAMES = ['Person', 'Address', 'Job', 'Flight', 'Airport', 'Order', 'Line', 'Payment', 'Weight', 'Report', 'Leg', 'Crew', 'Xsd']
SIMPLE_NAMES = ['Code', 'Percent', 'Pilot', 'Letter', 'Level', 'Mark', 'Grade', 'Unit', 'Rate', 'Tns']


class Options:
    """Features of the models, mostly as probabilities."""

    max_types, max_fields, depth = 5, 6, 3
    lists = 0.2
    attributes = 0.2
    complex = 0.35
    group = 0.15
    attribute_group = 0.12
    choice = 0.15
    all = 0.1
    inherit = 0.25
    nillable = 0.2
    override = 0.08       # namespace of a single element
    default = 0.08
    odd = 0.15            # names which are no Python identifiers
    renamed = 0.1         # other Python name than the tag
    swapped = 0.04        # names of two fields are each other's tags
    inline = 0.2          # restriction in place
    attribute_inline = 0.15
    named = 0.25
    string_ref = 0.25
    recursive = 0.15
    tns = 0.8             # types belong to a schema
    two_tns = 0.15
    narrow = False        # only values within the limits of libxml2
    instance = True       # instances are built with the classes, so defaults can not be dropped
    omit = 0.0            # omit required elements
    builtins = lex.BUILTINS
    prefix = ''           # of the type names

    def __init__(self, **kwargs):
        for key, value in kwargs.items():
            assert hasattr(self, key), key
            setattr(self, key, value)


class Simple:
    def __init__(self, builtin, facets=None, good=None, name=None, base=None, bare=False):
        self.builtin, self.facets, self.good, self.name, self.base, self.bare = builtin, facets or {}, good, name, base, bare
        self.narrow = False

    def value(self, rng):
        if self.good is not None:
            return rng.choice(self.good)
        for _ in range(100):
            value = lex.random_value(rng, self.builtin)
            if not self.narrow or within_libxml2(self.builtin, value):
                return value
        raise AssertionError(self.builtin)

    def normal(self, value):
        """The value stored for an accepted one."""
        return lex.collapse(self.facets, value) if self.builtin in lex.STRINGS else value

    def key(self, value):
        return lex.key(self.builtin, value)

    def text(self, rng, value):
        plain = rng is None or bool({'pattern', 'fractionDigits'} & set(self.facets))
        text = lex.write(rng, self.builtin, self.key(value), plain=plain)
        # libxml2 does not accept whitespace around these.
        return text.strip() if self.narrow and self.builtin in lex.TIMES + lex.FLOATS else text

    def same(self, expected, actual):
        if expected is None or expected is NIL or actual is None or actual is NIL:
            return expected is actual
        if self.builtin in lex.RANGES and not isinstance(actual, int):
            return False
        try:
            return self.key(actual) == self.key(self.normal(expected)) is not None
        except (TypeError, ValueError):
            return False

    def __repr__(self):
        return f'{self.name or self.builtin}{self.facets or ""}'


def within_libxml2(builtin, value):
    """libxml2 limits decimals to 24 digits and wants to know the prefix of a QName."""
    if builtin == 'QName':
        return ':' not in value
    if builtin == 'decimal' or builtin in lex.RANGES:
        text = lex.write(None, 'decimal', lex.key('decimal', value), plain=True)
        return len(text.strip('-').replace('.', '')) <= 22
    return True


class Field:
    def __init__(self, kind, py, tag, type, min=1, max=None, nillable=False, ns=None, default=MISSING, ref='class'):
        self.kind, self.py, self.tag, self.type = kind, py, tag, type
        self.min, self.max, self.nillable, self.ns, self.default, self.ref = min, max, nillable, ns, default, ref
        self.number = next(_counter)

    def __repr__(self):
        extra = ''.join(f' {k}={v!r}' for k, v in (('min', self.min), ('max', self.max), ('ns', self.ns)) if v is not None)
        type = self.type.name if isinstance(self.type, Complex) else repr(self.type)
        return f'{self.py}{"" if self.py == self.tag else "/" + self.tag}:{self.kind}({type}{extra}{" nillable" * self.nillable})'


class Complex:
    anonymous = False  # Only used for one element of the schema.

    def __init__(self, name, base=None, indicator='Sequence', role='ComplexType', tns=None):
        self.name, self.base, self.indicator, self.role, self.tns = name, base, indicator, role, tns
        self.fields = []

    def all_fields(self):
        return (self.base.all_fields() if self.base else []) + self.fields

    def demanding(self):
        """Are there attributes which even a nil element needs?"""
        return any(f.type.demanding() if f.kind == 'attributes' else f.kind == 'attribute' and f.min for f in self.all_fields())

    def strangers(self, attribute):
        """Names of fields in Python and of fields of the other kind, which are neither elements nor attributes of the type."""
        own, other = set(), self.used_names()
        todo = [self]
        while todo:
            for f in todo.pop().all_fields():
                if f.kind in ('group', 'attributes'):
                    todo.append(f.type)
                elif (f.kind == 'attribute') == attribute:
                    own.add(f.tag)
        return sorted(x for x in other - own if x.isascii())

    def empty(self):
        """Not even whitespace is allowed by XSD."""
        return not any(f.kind in ('element', 'list', 'group') for f in self.all_fields())

    def effective_tns(self):
        return self.tns if self.tns is not None else self.base.effective_tns() if self.base else None

    def used_names(self):
        return {n for f in self.all_fields() for n in
                ([f.py, f.tag] if f.kind not in ('group', 'attributes') else [f.py, *f.type.used_names()])}

    def __repr__(self):
        return f'{self.name}({self.base.name if self.base else ""}) {self.indicator} {self.fields}'


class Obj:
    def __init__(self, type, values):
        self.type, self.values = type, values

    def __repr__(self):
        return f'{self.type.name}({self.values})'


class Model:
    def __init__(self, options):
        self.options = options
        self.simples, self.groups, self.complexes = [], [], []
        self.tns, self.efd, self.root = None, 'qualified', None
        self.elements = {}  # Elements of the schema with their types.
        self.heads = {}     # Heads of their substitution groups.

    def __repr__(self):
        return f'tns={self.tns} {self.efd} root={self.root.name} simples={self.simples} groups={self.groups} types={self.complexes}'


# --- Declarations ------------------------------------------------------------
def random_simple(rng, options, facets=False, name=None):
    while True:
        builtin = rng.choice(list(options.builtins) + [b for b in ('string', 'int', 'decimal') if b in options.builtins])
        if not facets:
            simple = Simple(builtin, bare=rng.random() < 0.1)
            break
        if builtin != 'string' and builtin not in lex.NUMBERS:
            continue
        chosen, good = lex.random_facets(rng, builtin)
        if options.narrow:
            good = [x for x in good if within_libxml2(builtin, x)]
            if builtin in lex.RANGES and not all(lex.in_range(builtin, x) for k, v in chosen.items() if k == 'enumeration' or k[3:] in ('Inclusive', 'Exclusive')
                                                 for x in (v if isinstance(v, list) else [v])):
                continue  # Not allowed in XSD.
        if good:
            simple = Simple(builtin, chosen, good, name)
            break
    simple.narrow = options.narrow
    return simple


def derive(rng, base, name):
    """A named type derived from a named type with one more facet."""
    for _ in range(20):
        facets, _good = lex.random_facets(rng, base.builtin)
        if set(facets) & set(base.facets) or 'whiteSpace' in facets or 'whiteSpace' in base.facets:
            continue
        if {'minInclusive', 'minExclusive'} <= set(facets) | set(base.facets) \
                or {'maxInclusive', 'maxExclusive'} <= set(facets) | set(base.facets) \
                or 'length' in facets or 'length' in base.facets:
            continue
        if 'minLength' in base.facets and facets.get('maxLength', 99) < base.facets['minLength'] \
                or 'maxLength' in base.facets and facets.get('minLength', 0) > base.facets['maxLength']:
            continue
        if any(lex.violated(base.builtin, base.facets, x) or not lex.in_range(base.builtin, x) for x in facets.get('enumeration', ())):
            continue
        if any(lex.violated(base.builtin, base.facets, facets[x]) or not lex.in_range(base.builtin, facets[x]) for x in facets if x[3:] in ('Inclusive', 'Exclusive')):
            continue  # Not allowed in XSD.
        merged = {**base.facets, **facets}
        lows = [merged[x] for x in ('minInclusive', 'minExclusive') if x in merged]
        highs = [merged[x] for x in ('maxInclusive', 'maxExclusive') if x in merged]
        if lows and highs and lows[0] >= highs[0]:
            continue
        good = [x for x in base.good + _good if lex.in_range(base.builtin, x) and not lex.violated(base.builtin, merged, x)]
        if 'fractionDigits' in merged:
            # Known finding: exactly as many digits are required.
            good = [x for x in good if lex.places(x) == merged['fractionDigits']]
        if base.narrow:
            good = [x for x in good if within_libxml2(base.builtin, x)]
        if good:
            simple = Simple(base.builtin, merged, good, name, base)
            simple.narrow = base.narrow
            return simple
    return None


def pick_type(rng, options, model, attribute=False):
    inline = options.attribute_inline if attribute else options.inline
    roll = rng.random()
    if roll < options.named and model.simples:
        return rng.choice(model.simples)
    return random_simple(rng, options, facets=roll > 1 - inline)


def _name(rng, options, used):
    """A pair of Python name and tag."""
    while True:
        odd = rng.random() < options.odd
        tag = rng.choice(ODD_NAMES if odd else TYPE_NAMES + SIMPLE_NAMES if rng.random() < 0.15 else NAMES)
        if odd:
            py = 'f_' + ''.join(c if c.isalnum() and c.isascii() else '_' for c in tag)
        else:
            py = tag if rng.random() >= options.renamed else 'py_' + tag
        if tag not in used and py not in used:
            used |= {tag, py}
            return py, tag


def _nillable(rng, options):
    return rng.random() < options.nillable


def random_fields(rng, options, model, cls, count, allowed):
    used = cls.used_names()
    for _ in range(count):
        if rng.random() < options.attributes:
            py, tag = _name(rng, options, used)
            field = Field('attribute', py, tag, pick_type(rng, options, model, attribute=True), min=rng.randint(0, 1))
            if rng.random() < options.default:
                field.default = field.type.normal(field.type.value(rng))
            cls.fields.append(field)
            continue
        target, required, ref = None, True, 'class'
        if rng.random() < options.complex and allowed:
            target = rng.choice(allowed)
            if target is cls or not target.fields:
                required = False  # Would be infinite.
                ref = 'string'
            elif rng.random() < options.string_ref:
                ref = 'string'
        else:
            target = pick_type(rng, options, model)
        py, tag = _name(rng, options, used)
        ns = rng.choice(['urn:override', 'urn:tns', '']) if rng.random() < options.override else None
        if rng.random() < options.lists and cls.indicator != 'All':
            low = rng.choice([None, 0, 1, 2]) if required else rng.choice([None, 0])
            high = rng.choice([None, None, (low or 0) + rng.randint(1, 3), max(low or 1, 1)])
            if isinstance(target, Simple) and rng.random() < 0.04:
                low, high = rng.choice([low, low, 10 if required else low]), rng.choice([12, 100, 130])
            cls.fields.append(Field('list', py, tag, target, low, high, _nillable(rng, options), ns, ref=ref))
        else:
            low = rng.randint(0, 1) if required and cls.indicator != 'Choice' else 0 if not required else 1
            field = Field('element', py, tag, target, low, None, _nillable(rng, options), ns, ref=ref)
            if isinstance(target, Simple) and rng.random() < options.default and cls.indicator != 'Choice':
                field.default = target.normal(target.value(rng))
            cls.fields.append(field)


def random_model(rng, options=None):
    options = options or Options()
    model = Model(options)
    model.tns = rng.choice(['urn:tns', 'http://example.com/a?b=1&c', 'urn:tns:2']) if rng.random() < options.tns else None
    model.efd = rng.choice(['qualified', 'qualified', 'unqualified'])
    names = rng.sample(SIMPLE_NAMES, len(SIMPLE_NAMES))
    for _ in range(rng.randint(0, 3)):
        if options.named:
            simple = random_simple(rng, options, facets=True, name=options.prefix + names.pop())
            model.simples.append(simple)
            if rng.random() < 0.3:
                derived = derive(rng, simple, options.prefix + names.pop())
                if derived:
                    model.simples.append(derived)

    tns = lambda: None if model.tns is None else 'urn:other' if rng.random() < options.two_tns else model.tns
    group_names = rng.sample(GROUP_NAMES, len(GROUP_NAMES))
    groups, attribute_groups = [], []
    if rng.random() < options.group * 2:
        group = Complex(options.prefix + 'NameGroup', role='Group', tns=tns())
        for _ in range(rng.randint(1, 3)):
            name = group_names.pop()
            group.fields.append(Field('element', name, name, pick_type(rng, options, model), min=rng.randint(0, 1),
                                      nillable=_nillable(rng, options)))
        if rng.random() < 0.3:
            name = group_names.pop()
            group.fields.append(Field('list', name, name, pick_type(rng, options, model), min=0))
        groups.append(group)
    if rng.random() < options.attribute_group * 2:
        group = Complex(options.prefix + 'AttrGroup', role='AttributeGroup', tns=tns())
        for _ in range(rng.randint(1, 2)):
            name = group_names.pop()
            group.fields.append(Field('attribute', name, name, pick_type(rng, options, model, attribute=True), min=rng.randint(0, 1)))
        attribute_groups.append(group)
    model.groups = groups + attribute_groups

    names = rng.sample(TYPE_NAMES, len(TYPE_NAMES))
    count = rng.randint(1, options.max_types)
    shells = [Complex(options.prefix + names[i], tns=tns()) for i in range(count)]
    for i, cls in enumerate(shells):
        model.complexes.append(cls)
        bases = [c for c in shells[:i] if c.indicator == 'Sequence']
        if bases and rng.random() < options.inherit:
            cls.base = rng.choice(bases)
        elif rng.random() < options.choice:
            cls.indicator = 'Choice'
        elif rng.random() < options.all:
            cls.indicator = 'All'
        allowed = shells[:i]
        if rng.random() < options.recursive:
            allowed = shells[:]
        plain = cls.indicator == 'Sequence' and not any(f.kind in ('group', 'attributes') for f in cls.all_fields())
        before = rng.random() < 0.5
        extra = [g for g in groups + attribute_groups if plain and rng.random() < 0.5]
        fields = rng.randint(1, options.max_fields) if not cls.base else rng.randint(0, 3)
        if cls.indicator == 'Choice':
            saved, options.attributes = options.attributes, 0
            random_fields(rng, options, model, cls, max(fields, 2), allowed)
            options.attributes = saved
            if not any(isinstance(f.type, Simple) for f in cls.fields):
                py, tag = _name(rng, options, cls.used_names())
                cls.fields.append(Field('element', py, tag, pick_type(rng, options, model)))
            if rng.random() < 0.3:
                py, tag = _name(rng, options, cls.used_names())
                cls.fields.append(Field('attribute', py, tag, pick_type(rng, options, model, attribute=True), min=rng.randint(0, 1)))
        else:
            if before:
                _add_groups(cls, extra)
            random_fields(rng, options, model, cls, fields, allowed)
            if not before:
                _add_groups(cls, extra)
        if not cls.fields and not cls.base:
            random_fields(rng, options, model, cls, 1, [])
        if cls.indicator != 'Choice' and rng.random() < options.swapped:
            _swap_names(rng, cls)
    model.root = rng.choice([shells[-1], shells[-1], rng.choice(shells)])
    return model


def _add_groups(cls, groups):
    for group in groups:
        py = 'grp' if group.role == 'Group' else 'attrs'
        cls.fields.append(Field('group' if group.role == 'Group' else 'attributes', py, py, group))


def _swap_names(rng, cls):
    pair = [f for f in cls.fields if f.kind in ('element', 'list') and f.py == f.tag]
    if len(pair) >= 2:
        one, two = rng.sample(pair, 2)
        one.py, two.py = two.py, one.py


# --- Instances ---------------------------------------------------------------
def random_obj(rng, cls, options, depth=0):
    values = {}
    fields = cls.all_fields()
    chosen = None
    if cls.indicator == 'Choice':
        alternatives = [f for f in fields if f.kind in ('element', 'list')]
        if depth >= options.depth:
            alternatives = [f for f in alternatives if isinstance(f.type, Simple)]
        chosen = rng.choice(alternatives)

    def item(field):
        if field.nillable and rng.random() < 0.3 and not (options.narrow and isinstance(field.type, Complex) and field.type.demanding()):
            return NIL
        if isinstance(field.type, Simple):
            return field.type.value(rng)
        return random_obj(rng, field.type, options, depth + 1)

    for field in fields:
        deep = isinstance(field.type, Complex) and depth >= options.depth
        if field.kind in ('group', 'attributes'):
            values[field.py] = random_obj(rng, field.type, options, depth)
        elif field.kind == 'attribute':
            values[field.py] = item(field) if field.min or rng.random() < 0.6 else None
        elif cls.indicator == 'Choice' and field is not chosen:
            values[field.py] = [] if field.kind == 'list' else None
        elif field.kind == 'list':
            low = field.min or 0
            high = low + 3 if field.max is None else field.max
            if field is chosen:
                low = max(low, 1)
            n = low if deep else rng.choice([low, high, rng.randint(low, min(high, low + 5))])
            values[field.py] = [item(field) for _ in range(n)]
        else:
            present = field is chosen or (field.min and rng.random() >= options.omit) or (not deep and rng.random() < 0.6)
            values[field.py] = item(field) if present else None
        if field.default is not MISSING and values[field.py] is None and options.instance:
            values[field.py] = field.default
    return Obj(cls, values)


class Built:
    """The soapfish classes of a model."""

    def __init__(self, model, rng, location=None, imports=None, includes=None, register=True):
        self.model = model
        self.name = f'vf_model_{next(_counter)}'
        self.module = types.ModuleType(self.name)
        sys.modules[self.name] = self.module
        self.classes = {}
        for simple in model.simples:
            base = self.classes[simple.base.name] if simple.base else getattr(xsd, lex.CLASS_NAMES[simple.builtin])
            own = {k: v for k, v in simple.facets.items() if not simple.base or simple.base.facets.get(k) != v}
            self._define(simple.name, base, own)
        for cls in model.groups + model.complexes:
            body = {}
            if cls.role == 'ComplexType' and (not cls.base or rng.random() < 0.5):
                body['INDICATOR'] = getattr(xsd, cls.indicator)
                if cls.base:
                    body['INHERITANCE'] = xsd.Inheritance.EXTENSION
            for field in cls.fields:
                body[field.py] = self.field(field, rng)
            base = self.classes[cls.base.name] if cls.base else getattr(xsd, cls.role)
            self._define(cls.name, base, body)
        self.schemas = {}
        self.schema = None
        if register:
            for tns in dict.fromkeys(c.tns for c in model.groups + model.complexes):
                if tns is not None:
                    self._schema(tns, location, imports, includes, rng)
        self.root = self.classes[model.root.name]

    def _schema(self, tns, location, imports, includes, rng):
        model = self.model
        mine = lambda role, items: [self.classes[c.name] for c in items if c.role == role and c.tns == tns and not c.anonymous]
        main = tns == model.tns
        schema = xsd.Schema(
            tns, elementFormDefault=model.efd,
            simpleTypes=[self.classes[s.name] for s in model.simples] if main else [],
            attributeGroups=mine('AttributeGroup', model.groups), groups=mine('Group', model.groups),
            complexTypes=mine('ComplexType', model.complexes),
            elements=self.elements(rng) if main else {}, location=location if main else None,
            imports=imports if main else None, includes=includes if main else None,
        )
        self.schemas[tns] = schema
        if main:
            self.schema = schema

    def elements(self, rng):
        """Elements of the schema: name -> Element."""
        elements = {}
        for name, type in self.model.elements.items():
            head = self.model.heads.get(name)
            kwargs = {} if head is None else {'substitutionGroup': rng.choice(['', 'sns:']) + head}
            if isinstance(type, Complex) and type.anonymous:
                passed = self.classes[type.name]()
            else:
                passed = self.reference(type, rng.choice(['class', 'class', 'string']))
            elements[name] = xsd.Element(passed, **kwargs)
        return elements

    def reference(self, type, ref='class'):
        if isinstance(type, Complex) or type.name:
            cls = self.classes.get(type.name)
            return f'{self.name}.{type.name}' if ref == 'string' or cls is None else cls
        cls = getattr(xsd, lex.CLASS_NAMES[type.builtin])
        return cls(**type.facets) if type.facets or type.bare else cls

    def _define(self, name, base, body):
        cls = types.new_class(name, (base,), {}, lambda ns: ns.update({'__module__': self.name, **body}))
        self.classes[name] = cls
        setattr(self.module, name, cls)

    def field(self, field, rng):
        type = self.reference(field.type, field.ref)
        if field.kind in ('group', 'attributes'):
            return xsd.Ref(type)
        kwargs = {}
        if field.kind == 'attribute':
            if not field.min or rng.random() < 0.3:
                kwargs['use'] = xsd.Use.REQUIRED if field.min else rng.choice([xsd.Use.OPTIONAL, 'optional'])
            if field.default is not MISSING:
                kwargs['default'] = field.default
            if field.py != field.tag or rng.random() < 0.2:
                kwargs['tagname'] = field.tag
            return xsd.Attribute(type, **kwargs)
        if field.nillable:
            kwargs['nillable'] = True
        if field.ns is not None:
            kwargs['namespace'] = field.ns
        if field.kind == 'list':
            if field.min is not None:
                kwargs['minOccurs'] = field.min
            if field.max is not None:
                kwargs['maxOccurs'] = field.max
            return xsd.ListElement(type, field.tag, **kwargs)
        if field.py != field.tag or rng.random() < 0.2:
            kwargs['tagname'] = field.tag
        if not field.min or rng.random() < 0.2:
            kwargs['minOccurs'] = field.min
        if field.default is not MISSING:
            kwargs['default'] = field.default
        return xsd.Element(type, **kwargs)

    def close(self):
        sys.modules.pop(self.name, None)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    # -- instances
    def instance(self, obj, rng):
        cls = self.classes[obj.type.name]
        return fill(cls, obj, rng, lambda x: self.instance(x, rng))


def fill(cls, obj, rng, make):
    """Create an instance of a class with these values, in one of the ways a user can do that."""
    concrete = lambda v: make(v) if isinstance(v, Obj) else v
    fields = obj.type.all_fields()
    early = {}
    if rng.random() < 0.5:
        for field in fields:
            value = obj.values[field.py]
            if field.kind in ('element', 'attribute') and value is not None and rng.random() < 0.8:
                early[field.py] = concrete(value)
    instance = cls(**early)
    order = fields if rng.random() < 0.5 else rng.sample(fields, len(fields))
    for field in order:
        value = obj.values[field.py]
        if field.py in early:
            continue
        if field.kind == 'list':
            items = [concrete(v) for v in value]
            if rng.random() < 0.15 and not (isinstance(field.type, Simple) and 'whiteSpace' in field.type.facets):
                setattr(instance, field.py, items)
            else:
                for x in items:
                    getattr(instance, field.py).append(x)
        elif field.kind in ('group', 'attributes'):
            if rng.random() < 0.3:
                setattr(instance, field.py, make(value))
            else:
                part = getattr(instance, field.py)
                for inner in field.type.all_fields():
                    v = value.values[inner.py]
                    if inner.kind == 'list':
                        for x in v:
                            getattr(part, inner.py).append(concrete(x))
                    elif v is not None:
                        setattr(part, inner.py, concrete(v))
        elif value is not None or (field.default is MISSING and rng.random() < 0.2):
            setattr(instance, field.py, concrete(value))
    return instance


def change(rng, obj, instance, fresh, make):
    """Give some of the fields of an instance other values, returns what it should be afterwards."""
    concrete = lambda v: make(v) if isinstance(v, Obj) else v
    choice = obj.type.indicator == 'Choice'
    values = dict(obj.values)
    for field in obj.type.all_fields():
        old, new = obj.values[field.py], fresh.values[field.py]
        if not choice and rng.random() < 0.5 or (new is None and field.default is not MISSING):
            continue
        current = getattr(instance, field.py)
        if field.kind in ('group', 'attributes') or (isinstance(old, Obj) and isinstance(new, Obj) and old.type is new.type and rng.random() < 0.6):
            new = change(rng, old, current, new, make)
        elif field.kind == 'list':
            current.clear()
            for v in new:
                current.append(concrete(v))
        else:
            setattr(instance, field.py, concrete(new))
        values[field.py] = new
    return Obj(obj.type, values)


def differences(obj, instance, path='', parsed=False, name=lambda field: field.py):
    """Compare an instance with the values it should have, returns a list of (path, field, expected, actual)."""
    found = []
    if obj is None or obj is NIL or instance is None or instance is NIL:
        return [] if obj is instance else [(path, None, obj, instance)]

    def compare(field, where, expected, actual):
        if isinstance(field.type, Simple):
            if not field.type.same(expected, actual):
                found.append((where, field, expected, actual))
        elif isinstance(expected, Obj) and isinstance(actual, xsd.ComplexType):
            found.extend(differences(expected, actual, where, parsed, name))
        elif expected is not actual:
            found.append((where, field, expected, actual))

    for field in obj.type.all_fields():
        expected, actual = obj.values[field.py], getattr(instance, name(field))
        where = f'{path}/{field.tag}'
        if parsed and expected is None and field.default is not MISSING:
            expected = field.default
        if field.kind == 'list':
            if not isinstance(actual, list) or len(actual) != len(expected):
                found.append((where, field, expected, actual))
            else:
                for i, (e, a) in enumerate(zip(expected, actual)):
                    compare(field, f'{where}[{i}]', e, a)
        else:
            compare(field, where, expected, actual)
    return found


# --- Documents ---------------------------------------------------------------
class Node:
    """An element of a document with abstract values instead of text."""

    def __init__(self, ns, tag, field=None, type=None):
        self.ns, self.tag, self.field, self.type = ns, tag, field, type
        self.attributes = []   # [(name, Simple, value)]
        self.children = []
        self.leaf = None       # (Simple, value)
        self.nil = False

    def __repr__(self):
        return f'<{{{self.ns}}}{self.tag} {self.attributes} nil={self.nil} {self.leaf or self.children}>'

    def walk(self):
        yield self
        for child in self.children:
            yield from child.walk()

    def copy(self):
        new = Node(self.ns, self.tag, self.field, self.type)
        new.attributes, new.leaf, new.nil = list(self.attributes), self.leaf, self.nil
        new.children = [c.copy() for c in self.children]
        new.raw, new.text, new.extra = self.raw, self.text, dict(self.extra)
        return new

    raw = None   # Text in place of the content.
    text = ''    # Text in front of the children.
    extra = {}   # Further attributes.


def document(obj, tag, ns, efd):
    """The document for an object rendered with this tag, namespace and form default."""
    root = Node(ns or None, tag, type=obj.type)
    _content(root, obj.type, obj, ns, efd)
    return root


def _content(node, declared, obj, ns, efd):
    if declared.effective_tns():
        ns = declared.effective_tns()
    for field in obj.type.all_fields():
        value = obj.values[field.py]
        if field.kind in ('group', 'attributes'):
            _content(node, field.type, value, ns, efd)
        elif field.kind == 'attribute':
            if value is not None:
                node.attributes.append((field.tag, field.type, value))
        else:
            for x in (value if field.kind == 'list' else [] if value is None else [value]):
                own = ns if field.ns is None else field.ns
                child = Node(own if own and efd == 'qualified' else None, field.tag, field, field.type)
                node.children.append(child)
                if x is NIL:
                    child.nil = True
                elif isinstance(field.type, Simple):
                    child.leaf = (field.type, x)
                else:
                    _content(child, field.type, x, own, efd)


def compare_document(node, element, path=''):
    """Differences between the expected document and an lxml element."""
    path = f'{path}/{node.tag}'
    tag = f'{{{node.ns}}}{node.tag}' if node.ns else node.tag
    if element.tag != tag:
        return [f'{path}: element {element.tag} instead of {tag}']
    found = []
    attributes = dict(element.attrib)
    nil = attributes.pop(f'{{{XSI}}}nil', None)
    if (nil is not None and nil.strip() in ('true', '1')) != node.nil:
        found.append(f'{path}: nil is {nil!r}')
    if set(attributes) != {n for n, _, _ in node.attributes}:
        found.append(f'{path}: attributes {sorted(attributes)} instead of {sorted(n for n, _, _ in node.attributes)}')
    for name, simple, value in node.attributes:
        if name in attributes and not denotes(simple, attributes[name], value):
            found.append(f'{path}/@{name}: {attributes[name]!r} instead of {value!r}')
    if node.leaf:
        if len(element):
            found.append(f'{path}: has children')
        if not denotes(*node.leaf[:1], element.text or '', node.leaf[1]):
            found.append(f'{path}: {element.text!r} instead of {node.leaf[1]!r}')
        return found
    if node.nil:
        if len(element) or (element.text or '').strip():
            found.append(f'{path}: nil element has content')
        return found
    texts = [element.text] + [c.tail for c in element]
    if any(t and t.strip() for t in texts):
        found.append(f'{path}: unexpected text {texts}')
    children = list(element)
    if [c.tag for c in children] != [f'{{{c.ns}}}{c.tag}' if c.ns else c.tag for c in node.children]:
        found.append(f'{path}: children {[c.tag for c in children]} instead of {[(c.ns, c.tag) for c in node.children]}')
        return found
    for n, c in zip(node.children, children):
        found.extend(compare_document(n, c, path))
    return found


def denotes(simple, text, value):
    try:
        return lex.denote(simple.builtin, text) == simple.key(simple.normal(value))
    except lex.Invalid:
        return False


# --- Spellings ---------------------------------------------------------------
PLAIN = {'cdata': 0, 'charref': 0, 'comments': 0, 'space': 0, 'unknown': 0, 'shuffle': 0, 'nilfalse': 0, 'lexical': False}
WILD = {'cdata': 0.15, 'charref': 0.05, 'comments': 0.12, 'space': 0.4, 'unknown': 0.12, 'shuffle': 1, 'nilfalse': 0.1,
        'lexical': True}


class Speller:
    """Writes a document in one of the many ways to spell it."""

    def __init__(self, rng, encoding='utf-8', style=WILD):
        self.rng, self.encoding, self.style = rng, encoding, style

    def chance(self, name):
        return self.rng.random() < self.style[name]

    def misc(self):
        out = ''
        while self.chance('comments'):
            out += self.rng.choice(['<!-- c -->', '<!---->', '<!-- <name>x</name> -->', '<?pi x="1"?>', '<?name x?>'])
        return out

    def space(self):
        return self.rng.choice([' ', '\n', '\n\t', '  ']) if self.chance('space') else ''

    def char(self, c, attribute=None):
        if not self.encodable(c) or self.chance('charref') or c == '\r' or (attribute and c in '\t\n'):
            return self.rng.choice([f'&#{ord(c)};', f'&#x{ord(c):x};', f'&#x{ord(c):X};'])
        if c == '<' or c == '&' or c == '>':
            return {'<': '&lt;', '&': '&amp;', '>': '&gt;'}[c]
        if c == attribute:
            return '&quot;' if c == '"' else '&apos;'
        return c

    def encodable(self, c):
        try:
            c.encode(self.encoding)
            return True
        except UnicodeEncodeError:
            return False

    def text(self, text):
        out = self.misc()
        i = 0
        while i < len(text):
            size = self.rng.randint(1, len(text) - i) if self.chance('cdata') or self.chance('comments') else len(text) - i
            piece = text[i:i + size]
            if self.chance('cdata') and ']]>' not in piece and '\r' not in piece and all(map(self.encodable, piece)):
                out += f'<![CDATA[{piece}]]>'
            else:
                out += ''.join(self.char(c) for c in piece)
            i += size
            out += self.misc()
        if not text and self.chance('cdata'):
            out += '<![CDATA[]]>'
        return out

    def simple(self, simple, value):
        if not self.style['lexical']:
            return simple.text(None, value)
        return simple.text(self.rng, value)

    def attribute(self, name, value):
        quote = self.rng.choice('"\'')
        return f'{name}{self.rng.choice(["", "", " "]) if self.style["space"] else ""}={quote}' + \
            ''.join(self.char(c, quote) for c in value) + quote

    def prefix(self, ns, scope, declarations, used, default=True):
        known = [p for p, u in scope.items() if u == ns and (default or p)]
        if known and self.rng.random() < 0.9:
            prefix = self.rng.choice(known)
            used.add(prefix)
            return prefix
        while True:
            prefix = self.rng.choice(['', 'a', 'b', 'ns0', 'ns1', 'soap', 'x', 'tns', '_q', 'p-1'] if default else ['xsi', 'i', 'ns0', 'q'])
            if prefix not in declarations and prefix not in used:
                used.add(prefix)
                scope[prefix] = declarations[prefix] = ns
                return prefix

    def element(self, node, scope):
        rng = self.rng
        scope, declarations, used = dict(scope), {}, set()
        if node.ns:
            prefix = self.prefix(node.ns, scope, declarations, used)
        else:
            prefix = ''
            used.add('')
            if scope.get(''):
                scope[''] = declarations[''] = ''
        qname = f'{prefix}:{node.tag}' if prefix else node.tag
        attributes = [(n, self.simple(s, v)) for n, s, v in node.attributes] + list(node.extra.items())
        if node.nil:
            attributes.append((self.prefix(XSI, scope, declarations, used, False) + ':nil', rng.choice(['true', '1'])))
        elif self.chance('nilfalse'):
            attributes.append((self.prefix(XSI, scope, declarations, used, False) + ':nil', rng.choice(['false', '0'])))
        if self.chance('unknown'):
            p = self.prefix('urn:unknown', scope, declarations, used, False)
            names = [n for n, _, _ in node.attributes] + ['lang', 'name']
            attributes.append((f'{p}:{rng.choice(names)}', 'decoy'))
        if self.chance('unknown'):
            strangers = isinstance(node.type, Complex) and node.type.strangers(True)
            name = rng.choice(strangers) if strangers and rng.random() < 0.5 else rng.choice(['unknown1', 'xml:lang', 'xml:space'])
            attributes.append((name, 'default'))
        if self.chance('unknown') and rng.random() < 0.3:
            declarations.setdefault('unused', 'urn:unused')
        attributes += [('xmlns:' + p if p else 'xmlns', u) for p, u in declarations.items()]
        if self.style['shuffle']:
            rng.shuffle(attributes)
        head = qname + ''.join((self.space() or ' ') + self.attribute(n, v) for n, v in attributes) + self.space()

        if node.raw is not None:
            body = node.raw
        elif node.leaf:
            body = self.text(self.simple(*node.leaf))
        elif node.nil:
            body = ''
        else:
            empty = not self.style['unknown'] and isinstance(node.type, Complex) and node.type.empty()
            body = node.text + ('' if empty else self.space()) + self.misc()
            children = list(node.children)
            if self.style['shuffle'] and node.type is not None and getattr(node.type, 'indicator', '') == 'All':
                rng.shuffle(children)
            for child in children:
                body += self.decoy(node) + self.element(child, scope) + self.space() + self.misc()
            body += self.decoy(node)
        if not body and rng.random() < 0.5:
            return f'<{head}/>'
        return f'<{head}>{body}</{qname}{self.space()}>'

    def decoy(self, node):
        """An element which is not part of the type, with known elements inside."""
        if not self.chance('unknown') or getattr(node, 'closed', False):
            return ''
        strangers = isinstance(node.type, Complex) and node.type.strangers(False)
        tag = self.rng.choice(strangers) if strangers and self.rng.random() < 0.4 else self.rng.choice(['unknown', 'Unknown-x', 'zz'])
        inner = self.rng.choice(node.children).tag if node.children else 'x'
        return self.rng.choice([f'<{tag}/>', f'<{tag} xmlns="urn:unknown">text</{tag}>', f'<{tag}><{inner}>decoy</{inner}></{tag}>'])

    def document(self, node):
        body = self.element(node, {})
        return self.misc() + body + self.misc()


ENCODINGS = ['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'utf-8-sig', None, 'str']


def spell(rng, node, style=WILD, encoding=None):
    """Bytes (or str) of a document in a random spelling."""
    encoding = encoding or rng.choice(ENCODINGS)
    if encoding in ('us-ascii', 'iso-8859-1'):
        try:
            for x in node.walk():
                ''.join([x.tag, x.ns or ''] + [n for n, _, _ in x.attributes]).encode(encoding)
        except UnicodeEncodeError:
            encoding = 'utf-16'
    if encoding in (None, 'bare', 'str', 'utf-8-sig'):
        body = Speller(rng, 'utf-8', style).document(node)
        if encoding == 'str':
            return body
        return body.encode('utf-8' if encoding in (None, 'bare') else encoding)
    body = Speller(rng, encoding, style).document(node)
    version = rng.choice(['<?xml version="1.0" encoding="%s"?>', "<?xml version='1.0' encoding='%s' ?>\n",
                          '<?xml version="1.0" encoding="%s" standalone="yes"?>'])
    return (version % encoding.upper() + body).encode(encoding)


def plain(node):
    return Speller(__import__('random').Random(0), 'utf-8', PLAIN).element(node, {})
