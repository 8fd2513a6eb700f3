"""Writes models as XSD documents in one of the many ways to spell them, and finds the generated classes again."""
import itertools
import keyword
import sys
import types
import unicodedata
from xml.sax.saxutils import escape, quoteattr

from soapfish import xsd

from . import gen, lex

XS = 'http://www.w3.org/2001/XMLSchema'
_modules = itertools.count()
NUMERIC_FACETS = ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive')


class Restricted(gen.Complex):
    """A type derived by restriction: all fields are declared again."""

    def __init__(self, name, base):
        super().__init__(name, base, tns=base.tns)

    def all_fields(self):
        return self.fields


def restrict(rng, model, base, name):
    """A restriction of a complex type with some narrower fields."""
    new = Restricted(name, base)
    for f in base.all_fields():
        if f.kind == 'attribute':
            new.fields.append(f)
            continue
        g = gen.Field(f.kind, f.py, f.tag, f.type, f.min, f.max, f.nillable and rng.random() < 0.5, ref=f.ref)
        narrower = [s for s in model.simples if s.base is not None and s.base is f.type]
        if narrower and rng.random() < 0.6:
            g.type = rng.choice(narrower)
        endless = f.type is new or isinstance(f.type, gen.Complex)
        if f.kind == 'element' and not f.min and not endless and rng.random() < 0.5:
            g.min = 1
        if f.kind == 'list' and rng.random() < 0.5:
            low = max(f.min or 0, 2)
            g.max = rng.randint(low, low + 2) if f.max is None else rng.randint(min(low, f.max), f.max)
        new.fields.append(g)
    return new


def collide(cls):
    """Do two fields have the same identifier?"""
    names = [identifier(f.tag) for f in cls.all_fields()]
    return len(names) != len(set(names))


def random_model(rng, options, elements):
    """A model whose features can all be written as XSD."""
    while True:
        model = gen.random_model(rng, options)
        if not any(collide(c) for c in model.complexes):
            break
    for c in model.complexes:
        for f in c.fields:
            if f.kind == 'list' and f.max == 1:
                # A list with a single item is no list in XSD.
                f.kind, f.max, f.min = 'element', None, 1 if c.indicator == 'Choice' else f.min or 0
                f.default = gen.MISSING
    plain = [c for c in model.complexes if c.indicator == 'Sequence' and not any(f.kind == 'attributes' for f in c.all_fields())
             and any(f.kind != 'attribute' for f in c.all_fields())]
    if plain and rng.random() < 0.25:
        base = rng.choice(plain)
        new = restrict(rng, model, base, options.prefix + 'Narrow')
        model.complexes.append(new)
        if rng.random() < 0.5:
            model.root = new
        owners = [c for c in model.complexes if c.indicator == 'Sequence' and c is not new and not any(x.base is c for x in model.complexes)]
        if owners and rng.random() < 0.5:
            rng.choice(owners).fields.append(gen.Field('element', 'narrow', 'narrow', new, 0))
    elements(rng, model)
    return model


# Types of the XSD language, of Python and of the library.
LIKE_OTHERS = ['String', 'string', 'Int', 'integer', 'decimal', 'Date', 'dateTime', 'boolean', 'Element', 'element', 'Attribute', 'Schema', 'ComplexType', 'SimpleType',
               'ListElement', 'Type', 'None', 'True', 'Exception', 'object', 'Sequence', 'Choice']


class Names:
    """Names of the types in the XSD and in Python."""

    def __init__(self, rng, model):
        self.xml = {}
        used = {identifier(x[0].upper() + x[1:]) for x in model.elements}
        for x in model.simples + model.groups + model.complexes:
            while True:
                name = x.name
                if rng.random() < 0.5:
                    name = name[0].lower() + name[1:]
                if rng.random() < 0.15:
                    name += rng.choice(['-x', '.v1', '_T', 'Type', '\xe9', '2'])
                if rng.random() < 0.06:
                    name = rng.choice(LIKE_OTHERS)
                if class_name(name) not in used:
                    break
            used.add(class_name(name))
            self.xml[x] = name

    def python(self, type, model):
        if getattr(type, 'anonymous', False):
            return class_name(next(n for n, t in model.elements.items() if t is type))
        return class_name(self.xml[type])


def identifier(text):
    text = unicodedata.normalize('NFKC', text)
    text = ''.join(c if ('_' + c).isidentifier() else '_' for c in text)
    return text if text.isidentifier() and not keyword.iskeyword(text) else '_' + text


def class_name(name):
    return identifier(name[0].upper() + name[1:])


class Writer:
    """One XSD document for some of the components of a model."""

    def __init__(self, rng, model, names=None, refs=(), plain=False):
        self.rng, self.model, self.plain = rng, model, plain
        self.names = names or Names(rng, model)
        self.refs = list(refs)          # [(tag, {attribute: value})] of includes and imports
        self.foreign = {}               # {type: namespace} of types of other namespaces
        style = rng.choice(['default-xsd', 'default-tns', 'both'])
        self.prefixes = {}              # {prefix: uri}
        self.xs = [''] if style == 'default-xsd' else [rng.choice(['xs', 'xsd', 's', 'schema'])]
        if rng.random() < 0.2:
            self.xs.append('x-s')
        self.tns = [''] if style == 'default-tns' else [rng.choice(['tns', 'ns0', 'this', 'a.b'])]
        if rng.random() < 0.2:
            self.tns.append('other')
        for p in self.xs:
            self.prefixes[p] = XS
        for p in self.tns:
            self.prefixes[p] = model.tns

    def without_namespace(self):
        """The file has no target namespace, its names get the one of the file which includes it."""
        for p in list(self.prefixes):
            if not p or self.prefixes[p] != XS:
                del self.prefixes[p]
        self.xs = [p for p in self.xs if p] or ['xs']
        self.prefixes[self.xs[0]] = XS
        self.tns = ['']

    def add_foreign(self, namespace, types):
        """Types of another namespace can be used."""
        if namespace not in self.prefixes.values():
            self.prefixes[self.rng.choice(['f', 'imp', 'xx']) + str(len(self.prefixes))] = namespace
        self.foreign.update({t: namespace for t in types})

    # --- Helpers ---
    def tag(self, name):
        p = self.rng.choice(self.xs)
        return f'{p}:{name}' if p else name

    def qname(self, prefixes, name):
        p = self.rng.choice(prefixes)
        return f'{p}:{name}' if p else name

    def ref(self, type):
        if isinstance(type, gen.Simple) and not type.name:
            return self.qname(self.xs, type.builtin)
        if type in self.foreign:
            return self.qname([p for p, uri in self.prefixes.items() if uri == self.foreign[type]], self.names.xml[type])
        return self.qname(self.tns, self.names.xml[type])

    def misc(self):
        rng = self.rng
        if self.plain or rng.random() > 0.1:
            return ''
        return rng.choice(['<!-- c -->', '<!--<xs:element name="zz"/>-->', '<?pi?>', '\n\n'])

    def annotation(self):
        rng = self.rng
        if self.plain or rng.random() > 0.12:
            return ''
        outer, inner = self.tag('annotation'), self.tag(rng.choice(['documentation', 'appinfo']))
        text = rng.choice(['text', 'It\'s "quoted" \\ {{ x }} # no', '<element xmlns="urn:doc" name="zz"/>', 'a\n"""\nb', ''])
        return f'<{outer}><{inner}>{text}</{inner}></{outer}>'

    def element(self, name, attributes, body='', annotated=True):
        rng = self.rng
        tag = self.tag(name)
        attributes = [(k, v) for k, v in attributes if v is not None]
        if not self.plain:
            rng.shuffle(attributes)
        head = tag + ''.join(rng.choice([' ', ' ', '\n ']) + f'{k}={quoteattr(v)}' for k, v in attributes)
        content = (self.annotation() if annotated else '') + body + self.misc()
        return f'<{head}>{content}</{tag}>' if content or rng.random() < 0.5 else f'<{head}/>'

    # --- Components ---
    def restriction(self, simple, base):
        rng = self.rng
        facets = dict(simple.facets)
        if simple.base is not None:
            facets = {k: v for k, v in facets.items() if simple.base.facets.get(k) != v}
        parts = []
        for name, value in facets.items():
            for x in value if name == 'enumeration' else [value]:
                if simple.builtin in lex.NUMBERS and (name == 'enumeration' or name in NUMERIC_FACETS):
                    plain = 'pattern' in simple.facets or rng.random() < 0.6
                    x = lex.write(rng, simple.builtin, lex.key(simple.builtin, x), plain=plain).strip()
                parts.append((name, self.element(name, [('value', str(x))])))
        if not self.plain:
            # Enumerations keep their order, everything else may be anywhere.
            order = [i for i, (name, _) in enumerate(parts) if name == 'enumeration']
            rest = [x for x in parts if x[0] != 'enumeration']
            enums = [parts[i] for i in order]
            rng.shuffle(rest)
            at = rng.randint(0, len(rest))
            parts = rest[:at] + enums + rest[at:]
        return self.element('restriction', [('base', base)], ''.join(x for _, x in parts))

    def simple_type(self, simple):
        base = self.ref(simple.base) if simple.base is not None else self.qname(self.xs, simple.builtin)
        return self.element('simpleType', [('name', self.names.xml[simple])], self.restriction(simple, base))

    def local(self, field, choice):
        rng = self.rng
        attributes = [('name', field.tag)]
        low = 1 if field.min is None and field.kind == 'element' else field.min or 0
        if low != 1 or rng.random() < 0.2:
            attributes.append(('minOccurs', str(low)))
        if field.kind == 'list':
            attributes.append(('maxOccurs', 'unbounded' if field.max is None else str(field.max)))
        elif rng.random() < 0.15:
            attributes.append(('maxOccurs', '1'))
        if field.nillable:
            attributes.append(('nillable', rng.choice(['true', 'true', '1'])))
        elif rng.random() < 0.1:
            attributes.append(('nillable', rng.choice(['false', '0'])))
        if isinstance(field.type, gen.Simple) and not field.type.name and (field.type.facets or rng.random() < 0.05):
            return self.element('element', attributes,
                                self.element('simpleType', [], self.restriction(field.type, self.qname(self.xs, field.type.builtin))))
        return self.element('element', attributes + [('type', self.ref(field.type))])

    def attribute(self, field):
        use = 'required' if field.min else self.rng.choice([None, None, 'optional'])
        return self.element('attribute', [('name', field.tag), ('type', self.ref(field.type)), ('use', use)])

    def content(self, cls):
        """Particles and attributes of a complex type."""
        rng = self.rng
        elements = [f for f in cls.fields if f.kind in ('element', 'list')]
        attributes = [f for f in cls.fields if f.kind == 'attribute']
        if isinstance(cls, Restricted):
            attributes = [f for f in attributes if rng.random() < 0.5]
        groups = [f for f in cls.fields if f.kind == 'attributes']
        body = ''
        if elements or rng.random() < 0.3:
            body = self.element(cls.indicator.lower(), [], ''.join(self.misc() + self.local(f, cls.indicator == 'Choice') for f in elements))
        parts = [self.attribute(f) for f in attributes] + [self.element('attributeGroup', [('ref', self.ref(f.type))]) for f in groups]
        if not self.plain:
            rng.shuffle(parts)
        return body + ''.join(parts)

    def complex_type(self, cls, named=True):
        body = self.content(cls)
        if cls.base is not None:
            kind = 'restriction' if isinstance(cls, Restricted) else 'extension'
            body = self.element('complexContent', [], self.element(kind, [('base', self.ref(cls.base))], body))
        return self.element('complexType', [('name', self.names.xml[cls])] if named else [], body)

    def attribute_group(self, group):
        return self.element('attributeGroup', [('name', self.names.xml[group])], ''.join(self.attribute(f) for f in group.fields))

    def group(self, group):
        body = self.element('sequence', [], ''.join(self.misc() + self.local(f, False) for f in group.fields))
        return self.element('group', [('name', self.names.xml[group])], body)

    def global_element(self, name, type):
        head = self.model.heads.get(name)
        attributes = [('name', name), ('substitutionGroup', None if head is None else self.qname(self.tns, head))]
        if isinstance(type, gen.Complex):
            if type.anonymous:
                return self.element('element', attributes, self.complex_type(type, named=False))
        elif type.facets and not type.name:
            return self.element('element', attributes,
                                self.element('simpleType', [], self.restriction(type, self.qname(self.xs, type.builtin))))
        return self.element('element', attributes + [('type', self.ref(type))])

    def components(self, only=None):
        model = self.model
        wanted = lambda x: only is None or x in only
        parts = [self.simple_type(s) for s in model.simples if wanted(s)]
        parts += [self.attribute_group(g) for g in model.groups if g.role == 'AttributeGroup' and wanted(g)]
        parts += [self.group(g) for g in model.groups if g.role == 'Group' and wanted(g)]
        parts += [self.complex_type(c) for c in model.complexes if not c.anonymous and wanted(c)]
        parts += [self.global_element(n, t) for n, t in model.elements.items() if wanted(n)]
        return parts

    def body(self, only=None, namespaces=True):
        """The element xs:schema."""
        rng, model = self.rng, self.model
        parts = self.components(only)
        if not self.plain and rng.random() < 0.7:
            rng.shuffle(parts)
        attributes = [('targetNamespace', model.tns)] if model.tns else []
        if model.efd == 'qualified' or rng.random() < 0.5:
            attributes.append(('elementFormDefault', model.efd))
        if rng.random() < 0.2:
            attributes.append(('attributeFormDefault', 'unqualified'))
        if rng.random() < 0.1:
            attributes.append(('version', '1.0'))
        attributes += [('xmlns:' + p if p else 'xmlns', uri) for p, uri in self.prefixes.items()]
        references = ''.join(self.element(tag, list(values.items())) for tag, values in self.refs)
        newline = rng.choice(['', '\n', '\n  '])
        return self.element('schema', attributes, references + newline + newline.join(self.misc() + p for p in parts))

    def document(self, only=None):
        rng = self.rng
        body = self.misc() + self.body(only) + self.misc()
        encoding = rng.choice([None, None, 'utf-8', 'utf-16', 'iso-8859-1', 'utf-8-sig'])
        if encoding in (None, 'utf-8-sig'):
            return body.strip().encode(encoding or 'utf-8')
        return f'<?xml version="1.0" encoding="{encoding.upper()}"?>{body}'.encode(encoding, 'xmlcharrefreplace' if body.isascii() else 'strict') \
            if encodable(body, encoding) else body.strip().encode()


def encodable(text, encoding):
    try:
        text.encode(encoding)
        return True
    except UnicodeEncodeError:
        return False


class Module:
    """Generated code as an imported module."""

    def __init__(self, code, name=None):
        self.code = code
        self.name = name or f'vf_generated_{next(_modules)}'

    def __enter__(self):
        self.module = types.ModuleType(self.name)
        sys.modules[self.name] = self.module
        try:
            exec(compile(self.code, self.name + '.py', 'exec'), self.module.__dict__)
        except BaseException:
            sys.modules.pop(self.name, None)
            raise
        return self.module

    def __exit__(self, *args):
        sys.modules.pop(self.name, None)


class Generated:
    """The generated classes of a model: which class and which attribute stands for what."""

    def __init__(self, module, model, names):
        self.module, self.model, self.names = module, model, names
        self.fields = {}
        self.missing = []
        self.classes = {}
        for c in model.complexes:
            cls = self.classes[c] = getattr(module, names.python(c, model), None)
            if not (isinstance(cls, type) and issubclass(cls, xsd.ComplexType)):
                self.missing.append(f'class {names.python(c, model)}')
                continue
            for f in c.all_fields():
                found = attributes_for(cls, f)
                if len(found) != 1:
                    self.missing.append(f'{names.python(c, model)}: {f} is {found}')
                else:
                    self.fields[c, f] = found[0]
                if f.kind == 'attributes' and found:
                    group = getattr(module, names.python(f.type, model), None)
                    for g in f.type.fields:
                        found = attributes_for(group, g) if group else []
                        if len(found) != 1:
                            self.missing.append(f'{names.python(f.type, model)}: {g} is {found}')
                        else:
                            self.fields[f.type, g] = found[0]

    def schemas(self):
        found = []
        for x in vars(self.module).values():
            if isinstance(x, xsd.Schema) and not any(x is y for y in found):
                found.append(x)
        return found

    def differences(self, obj, instance):
        return differences(self, obj, instance)

    def name(self, type, field):
        return self.fields[type, field]

    def instance(self, obj, rng):
        """An object of the generated classes, built in one of the possible ways."""
        cls = self.classes[obj.type]
        fields = [f for f in obj.type.all_fields()]
        value = lambda f, x: x if not isinstance(x, gen.Obj) else self.instance(x, rng)
        early = {}
        names = {f: self.fields[obj.type, f] for f in fields}
        if rng.random() < 0.4:
            for f in fields:
                x = obj.values[f.py]
                if f.kind in ('element', 'attribute') and x is not None and rng.random() < 0.8:
                    early[f] = value(f, x)
        instance = cls(**{names[f]: x for f, x in early.items()})
        for f in rng.sample(fields, len(fields)):
            x = obj.values[f.py]
            if f in early:
                continue
            if f.kind == 'list':
                for item in x:
                    getattr(instance, names[f]).append(value(f, item))
            elif f.kind == 'attributes':
                part = getattr(instance, names[f])
                for g in f.type.fields:
                    if x.values[g.py] is not None:
                        setattr(part, self.fields[f.type, g], x.values[g.py])
            elif x is not None:
                setattr(instance, names[f], value(f, x))
        return instance


def attributes_for(cls, field):
    """Names of the class attributes which declare a field."""
    found = {}
    for base in reversed(cls.__mro__):
        for name, item in vars(base).items():
            found.pop(name, None)
            if field.kind == 'attributes':
                if isinstance(item, xsd.Ref):
                    found[name] = item
            elif isinstance(item, xsd.Element) and not isinstance(item, xsd.Ref) and isinstance(item, xsd.Attribute) == (field.kind == 'attribute') \
                    and (item.tagname or name) == field.tag:
                found[name] = item
    return list(found)


def differences(generated, obj, instance, path=''):
    """Like gen.differences() for objects of generated classes."""
    found = []
    if obj is None or obj is gen.NIL or instance is None or instance is gen.NIL:
        return [] if obj is instance else [(path, None, obj, instance)]

    def compare(field, where, expected, actual):
        if isinstance(field.type, gen.Simple):
            if not field.type.same(expected, actual):
                found.append((where, field, expected, actual))
        elif isinstance(expected, gen.Obj) and isinstance(actual, xsd.ComplexType):
            if field.kind != 'attributes' and type(actual) is not generated.classes[field.type]:
                found.append((where, field, 'class', type(actual)))
            found.extend(differences(generated, expected, actual, where))
        elif expected is not actual:
            found.append((where, field, expected, actual))

    for field in obj.type.all_fields():
        expected, actual = obj.values[field.py], getattr(instance, generated.fields[obj.type, field])
        where = f'{path}/{field.tag}'
        if field.kind == 'list':
            if not isinstance(actual, list) or len(actual) != len(expected):
                found.append((where, field, expected, actual))
            else:
                for i, (e, a) in enumerate(zip(expected, actual)):
                    compare(field, f'{where}[{i}]', e, a)
        else:
            compare(field, where, expected, actual)
    return found
