"""C06: a generated XSD accepts what the model accepts and rejects what it rejects."""
import re

from lxml import etree

from soapfish import py2xsd, xsd
from vf import gen, lex, mutate, svc
from vf.core import Group

PROPERTY = 'C06'
RULE = ('A case generates the XSD of a random schema of models, which libxml2 compiles and runs on rendered documents and on '
        'documents in which one constraint is broken; non-trivial and distinct by document.')
KINDS = ['missing-element', 'missing-attribute', 'unknown-element', 'unknown-attribute', 'order', 'short-list', 'long-list', 'nil',
         'two-branches', 'no-branch', 'repeated-element', 'text', 'wrong-namespace', 'child-of-simple', 'lexical', 'range',
         'attribute-lexical', 'attribute-range']
REQUIRED = {'imported': 300, 'imported-broken': 300, 'schemas': 500, 'valid': 1500, 'rejected': 5000, 'substitution': 50, 'anonymous': 50, 'includes': 50, 'imports': 50,
            'parse-refused': 500, 'parse-accepted': 500, 'render-refused': 100}
REQUIRED.update({f'broken:{k}': 30 for k in KINDS})
FACETS = ('enumeration', 'pattern', 'length', 'minLength', 'maxLength', 'minInclusive', 'minExclusive', 'maxInclusive',
          'maxExclusive', 'totalDigits', 'fractionDigits')
REQUIRED.update({f'broken:{k}': 10 for k in FACETS})
REQUIRED.update({f'broken:attribute-{k}': 3 for k in FACETS})
STRICT = dict(gen.WILD, unknown=0, nilfalse=0)
S = '{http://www.w3.org/2001/XMLSchema}'
ELEMENTS = ['Root', 'request', 'Reply', 'item2', 'flight-plan', 'x.y', '\xe9l\xe9ment', 'op', 'type', 'class']


def options(**kwargs):
    return gen.Options(tns=1, two_tns=0, override=0, group=0, attribute_group=0, narrow=True, **kwargs)


def add_elements(rng, model):
    """Elements of the schema, of named, anonymous and simple types."""
    names = rng.sample(ELEMENTS, len(ELEMENTS))
    for cls in rng.sample(model.complexes, rng.randint(1, len(model.complexes))):
        model.elements[names.pop()] = cls
    model.elements.setdefault(names.pop(), model.root)
    if rng.random() < 0.4:
        model.elements[names.pop()] = rng.choice(model.simples + [gen.Simple('string'), gen.Simple('string', {'maxLength': 3})])
    used = {f.type for c in model.complexes for f in c.all_fields()} | {c.base for c in model.complexes}
    free = [c for c in model.complexes if c not in used and list(model.elements.values()).count(c) == 1]
    if free and rng.random() < 0.5:
        rng.choice(free).anonymous = True
    for name, cls in list(model.elements.items()):
        if isinstance(cls, gen.Complex) and not cls.anonymous and rng.random() < 0.2 and names:
            member = names.pop()
            model.elements[member] = cls
            model.heads[member] = name
            if names and rng.random() < 0.3:
                further = names.pop()
                model.elements[further] = cls
                model.heads[further] = member


def structure(mon, model, schema_element, context):
    """Everything which is declared is there exactly once."""
    lower = lambda name: name[0].lower() + name[1:]
    expected = {
        'simpleType': sorted(lower(s.name) for s in model.simples),
        'complexType': sorted(lower(c.name) for c in model.complexes if not c.anonymous),
        'element': sorted(model.elements),
    }
    for tag, names in expected.items():
        actual = sorted(e.get('name') for e in schema_element if e.tag == S + tag)
        mon.check(actual == names, f'declared-{tag}', f'{tag}: {actual} instead of {names}', **context)
    mon.check(schema_element.get('targetNamespace') == model.tns, 'target-namespace', 'Wrong target namespace', **context)
    mon.check((schema_element.get('elementFormDefault') or 'unqualified') == model.efd, 'form-default', 'Wrong form default', **context)
    for name, head in model.heads.items():
        e = next(e for e in schema_element if e.tag == S + 'element' and e.get('name') == name)
        actual = e.get('substitutionGroup', '').split(':')[-1]
        mon.check(actual == head, 'substitution-group', f'{name}: head is {actual!r} instead of {head!r}', **context)


def agree(mon, rng, index):
    opts = options(swapped=0.02)
    model = gen.random_model(rng, opts)
    add_elements(rng, model)
    with gen.Built(model, rng) as built:
        schema_element = py2xsd.generate_xsd(built.schema)
        source = etree.tostring(schema_element, pretty_print=True)
        mon.event('schemas')
        context = {'xsd': source, 'model': model}
        structure(mon, model, schema_element, context)
        try:
            compiled = etree.XMLSchema(etree.fromstring(source))
        except etree.XMLSchemaParseError as e:
            mon.violation('not-compiled', f'Generated XSD is not valid: {e}', **context)
            return
        mon.sample(xsd=source)
        names = [n for n, t in model.elements.items() if isinstance(t, gen.Complex)]
        for name in rng.sample(names, min(len(names), 2)):
            documents(mon, rng, built, model, opts, name, compiled, context)


def documents(mon, rng, built, model, opts, name, compiled, context):
    declared = model.elements[name]
    cls = built.classes[declared.name]
    obj = gen.random_obj(rng, declared, opts)
    instance = built.instance(obj, rng)
    if declared.anonymous:
        mon.event('anonymous')
    if name in model.heads:
        mon.event('substitution')
    # What the model renders is valid.
    xml = instance.xml(name, namespace=model.tns, elementFormDefault=model.efd)
    mon.event('valid')
    mon.judged(xml)
    root = etree.fromstring(xml)
    if not mon.check(compiled.validate(root), 'valid-refused', f'Document is refused: {compiled.error_log.last_error}', document=xml, **context):
        return
    # Rendering with the schema.
    try:
        again = instance.xml(name, namespace=model.tns, elementFormDefault=model.efd, schema=compiled)
    except etree.DocumentInvalid as e:
        mon.violation('render-refused', f'Rendering with the schema fails: {e}', document=xml, **context)
    else:
        mon.check(again == xml, 'render-changed', 'Rendering with the schema changes the document', document=xml)
    # Parsing other spellings with the schema.
    node = gen.document(obj, name, model.tns, model.efd)
    spelled = gen.spell(rng, node, STRICT, encoding='utf-8')
    check_parse(mon, rng, built, cls, spelled, compiled, obj, context)
    broken = 0
    for kind, changed in mutate.mutations(rng, node):
        broken += 1
        text = gen.spell(rng, changed, STRICT if rng.random() < 0.5 else gen.PLAIN, encoding='utf-8')
        mon.event(f'broken:{kind}')
        mon.judged(text)
        if compiled.validate(etree.fromstring(text)):
            mon.violation(f'accepted-{kind}', f'Document with {kind} is accepted', document=text, valid=xml, **context)
            continue
        mon.event('rejected')
        if rng.random() < 0.4:
            try:
                cls.parsexml(text, schema=rng.choice([compiled, built.schema]))
            except (ValueError, etree.XMLSyntaxError, etree.DocumentInvalid):
                mon.event('parse-refused')
            else:
                mon.violation(f'parsed-{kind}', f'Document with {kind} is parsed with the schema', document=text, **context)
    # An incomplete instance can not be rendered with the schema.
    required = [f for f in declared.all_fields() if f.kind == 'element' and f.min and declared.indicator != 'Choice' and f.default is gen.MISSING]
    if required:
        field = rng.choice(required)
        setattr(instance, field.py, None)
        mon.event('render-refused')
        mon.raises((etree.DocumentInvalid, ValueError), 'render-incomplete', f'Document without {field} is rendered with the schema',
                   instance.xml, name, namespace=model.tns, elementFormDefault=model.efd, schema=compiled)


def check_parse(mon, rng, built, cls, text, compiled, obj, context):
    try:
        parsed = cls.parsexml(text, schema=rng.choice([compiled, built.schema]))
    except (ValueError, etree.XMLSyntaxError, etree.DocumentInvalid) as e:
        mon.violation('parse-refused', f'Valid document is refused when parsing with the schema: {e}', document=text, **context)
        return
    mon.event('parse-accepted')
    found = gen.differences(obj, parsed, parsed=True)
    mon.check(not found, 'parse-changed', f'Parsed with the schema: {found[:3]}', document=text, **context)


def several(mon, rng, index):
    """Schemas which include or import others, validated together."""
    opts = options(max_types=3)
    one = gen.random_model(rng, opts)
    add_elements(rng, one)
    other_options = options(max_types=3, prefix='X')
    two = gen.random_model(rng, other_options)
    include = rng.random() < 0.5
    two.tns = one.tns if include else rng.choice(['urn:second', one.tns + '/2', one.tns.swapcase(), one.tns.swapcase(), one.tns + '#', 'http://x.example/?a=1&b=2'])
    for c in two.complexes:
        c.tns = two.tns
    two.efd = rng.choice(['qualified', 'unqualified'])
    two.elements = {'X' + rng.choice(['element', 'reply']): two.root}
    mon.event('includes' if include else 'imports')
    location = rng.choice(['types.xsd', 'http://example.com/types.xsd', 'sub/other types.xsd'])
    with gen.Built(two, rng, location=location) as second:
        chain = rng.random() < 0.3
        kwargs = {'includes' if include else 'imports': [second.schema]}
        if include and rng.random() < 0.6:
            # Types of an included schema can be used.
            owner = rng.choice([c for c in one.complexes])
            if owner.indicator == 'Sequence' and not any(c.base is owner for c in one.complexes):
                owner.fields.append(gen.Field('element', 'fromincluded', 'fromincluded', two.root, min=rng.randint(0, 1)))
                mon.event('cross-include')
        with Joined(one, rng, second, **kwargs) as first:
            schemas = [first.schema]
            if chain:
                outer = xsd.Schema('urn:outer', imports=[first.schema], elementFormDefault='qualified')
                first.schema.location = 'first.xsd'
                schemas = [outer]
            elif rng.random() < 0.3 and not include:
                schemas = [first.schema, second.schema]
            validate = py2xsd.schema_validator(schemas)
            for model, built in ((one, first), (two, second)):
                name = rng.choice([n for n, t in model.elements.items() if isinstance(t, gen.Complex)])
                obj = gen.random_obj(rng, model.elements[name], opts)
                node = gen.document(obj, name, model.tns, model.efd)
                if include and model is one and one.efd != two.efd:
                    continue  # The document would need both form defaults.
                xml = gen.spell(rng, node, STRICT, encoding='utf-8')
                mon.judged(xml)
                try:
                    validate(etree.fromstring(xml))
                except etree.DocumentInvalid as e:
                    mon.violation('several-refused', f'Valid document is refused: {e}', document=xml, model=model)
                for kind, changed in mutate.mutations(rng, node):
                    text = gen.spell(rng, changed, gen.PLAIN, encoding='utf-8')
                    mon.judged(text)
                    mon.event(f'broken:{kind}')
                    mon.raises(etree.DocumentInvalid, f'several-accepted-{kind}', f'Document with {kind} is accepted: {text!r}',
                               validate, etree.fromstring(text))


class Joined(gen.Built):
    """Classes of a model which may use the classes of another one."""

    def __init__(self, model, rng, other, **kwargs):
        self.other = other
        super().__init__(model, rng, **kwargs)

    def reference(self, type, ref='class'):
        if type in self.other.model.complexes:
            return self.other.reference(type, 'class')
        return super().reference(type, ref)

    def instance(self, obj, rng):
        if obj.type in self.other.model.complexes:
            return self.other.instance(obj, rng)
        return super().instance(obj, rng)


def builtins(mon, rng, index):
    """Every built-in type on its own: as element, list and attribute, with accepted and refused text."""
    builtin = lex.BUILTINS[index % len(lex.BUILTINS)]
    t = getattr(xsd, lex.CLASS_NAMES[builtin])
    cls = type('Holder', (xsd.ComplexType,), {'e': xsd.Element(t), 'l': xsd.ListElement(t, 'l', minOccurs=1), 'a': xsd.Attribute(t)})
    named = type('Named', (t,), {})
    cls2 = type('Holder2', (xsd.ComplexType,), {'e': xsd.Element(named), 'l': xsd.ListElement(named, 'l', minOccurs=1), 'a': xsd.Attribute(named)})
    schema = xsd.Schema('urn:b', elementFormDefault='unqualified', simpleTypes=[named], complexTypes=[cls, cls2],
                        elements={'r': xsd.Element(cls), 's': xsd.Element(cls2)})
    compiled = etree.XMLSchema(etree.fromstring(etree.tostring(py2xsd.generate_xsd(schema))))
    simple = gen.Simple(builtin)
    simple.narrow = True
    value = simple.value(rng)
    for name, c in (('r', cls), ('s', cls2)):
        instance = c(e=value, a=value)
        instance.l.append(value)
        xml = instance.xml(name, namespace='urn:b')
        mon.judged(builtin, xml)
        mon.check(compiled.validate(etree.fromstring(xml)), f'builtin-refused-{builtin}', f'{xml} is refused: {compiled.error_log.last_error}')
        bad = mutate.bad_text(rng, simple)
        if bad is None:
            continue
        for path in ('e', 'l', '@a'):
            root = etree.fromstring(xml)
            if path == '@a':
                root.set('a', bad[1])
            else:
                root.find(path).text = bad[1]
            mon.judged(builtin, path, bad)
            mon.event('rejected')
            mon.check(not compiled.validate(root), f'builtin-accepted-{builtin}', f'{bad[1]!r} is accepted in {path} of type {builtin}')


def imported(mon, rng, index):
    """Parsing with a schema whose types are in schemas it imports or includes."""
    with svc.RandomService(rng, headers=0, nested=1.0) as service:
        for model, built in zip(service.models, service.built):
            schema = next((s for s in service.service.schemas if reaches(s, built.schema)), None)
            for name, type in model.elements.items():
                if schema is None or not isinstance(type, gen.Complex):
                    continue
                cls = built.classes[type.name]
                obj = service.random_obj(rng, name)
                node = service.message(obj, name)
                text = gen.spell(rng, node, STRICT, encoding='utf-8')
                context = {'document': text, 'service': service}
                mon.event('imported')
                mon.judged('imported', text)
                try:
                    found = gen.differences(obj, cls.parsexml(text, schema=schema), parsed=True)
                    mon.check(not found, 'imported-changed', f'Parsed with the schema: {found[:3]}', **context)
                except (ValueError, etree.XMLSyntaxError, etree.DocumentInvalid, etree.XMLSchemaParseError) as e:
                    mon.violation('imported-refused', f'Valid document is refused when parsing with the schema: {e}', **context)
                    continue
                for kind, changed in mutate.mutations(rng, node):
                    mon.event('imported-broken')
                    text = gen.spell(rng, changed, STRICT, encoding='utf-8')
                    mon.raises((ValueError, etree.XMLSyntaxError, etree.DocumentInvalid), f'imported-{kind}', f'Document with {kind} is parsed with the schema {text}', cls.parsexml, text, schema=schema)
                    break


def reaches(schema, wanted):
    return schema is wanted or any(reaches(x, wanted) for x in schema.imports + schema.includes)


def groups(tier):
    n = 60 if tier == 'thorough' else 2
    return [Group('agree', agree, 2500 * n), Group('several', several, 500 * n), Group('builtins', builtins, 150 * n),
            Group('imported', imported, 120 * n)]
