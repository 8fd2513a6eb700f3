"""C01: model objects survive the trip through XML unchanged."""
import copy
import sys
import types

from vf import gen, lex
from vf.checks.c02 import document_class
from vf.core import Group

PROPERTY = 'C01'
RULE = ('A case is a randomly declared set of model classes and one instance of its root class; it is non-trivial and '
        'distinct by the pair of declaration shape and rendered document.')
REQUIRED = {'values-compared': 1000, 'nil': 20, 'lists': 100, 'recursive': 5, 'choice': 20, 'groups': 20, 'inherited': 20, 'choice-in-choice': 500, 'documents': 300, 'duplicates': 300, 'modified': 800}
ASSUMPTIONS = ['Dates and times carry a zone, decimals are within double precision, strings contain only XML characters.']


def count(mon, obj):
    mon.event('values-compared', len(obj.values))
    for field in obj.type.all_fields():
        value = obj.values[field.py]
        items = value if isinstance(value, list) else [value]
        if field.kind == 'list':
            mon.event('lists')
        if field.kind in ('group', 'attributes'):
            mon.event('groups')
        for x in items:
            if x is gen.NIL:
                mon.event('nil')
            elif isinstance(x, gen.Obj):
                count(mon, x)
            elif x is not None:
                mon.event(f'type:{field.type.builtin}')
    if obj.type.base:
        mon.event('inherited')
    if obj.type.indicator != 'Sequence':
        mon.event(obj.type.indicator.lower())


def depth(obj):
    return 1 + max((depth(x) for v in obj.values.values() for x in (v if isinstance(v, list) else [v])
                    if isinstance(x, gen.Obj)), default=0)


def whole(mon, rng, root, instance, obj, tag, ns, context):
    """Documents keep what they are given, all of them their own."""
    cls, name = document_class(rng, root, tag, ns)
    xml = cls(**{name: instance}).render()
    first, second = cls.parsexml(xml), cls.parsexml(xml if rng.random() < 0.7 else xml.decode())
    mon.event('documents')
    for document in (first, second):
        found = gen.differences(obj, getattr(document, name), parsed=True)
        mon.check(not found, 'document', f'Changed by the trip of a document: {found[:3]}', document=xml, **context)
    mon.check(getattr(first, name) is not getattr(second, name) and getattr(cls(), name) is None, 'document-shared',
              'Documents share what they contain', document=xml, **context)


def duplicate(mon, rng, obj, instance, parsed, tag, context):
    """A deep copy is an object of its own which has the same values."""
    for kind, original in ('built', instance), ('parsed', parsed):
        other = copy.deepcopy(original)
        mon.event('duplicates')
        before = original.xml(tag)
        found = gen.differences(obj, other, parsed=original is parsed)
        mon.check(not found, 'duplicate', f'Changed in the copy of a {kind} object: {found[:3]}', **context)
        mon.check(other.xml(tag) == before, 'duplicate-document', f'Other document of the copy of a {kind} object', document=before, **context)
        for field in obj.type.all_fields():
            value = getattr(other, field.py)
            if field.kind == 'list':
                value.append(value[0]) if value and rng.random() < 0.5 and len(value) < (field.max or 99) else value.clear()
            elif field.kind == 'element':
                setattr(other, field.py, None)
        mon.check(original.xml(tag) == before, 'duplicate-shared', f'A change of a copy changes the {kind} object', document=before, **context)


def modify(mon, rng, built, obj, target, fresh, parsed, tag, ns, efd, context):
    """An object shows the values it has now, wherever it comes from and whatever was done with it before."""
    kind = 'parsed' if parsed else 'built'
    wanted = gen.change(rng, obj, target, fresh, lambda x: built.instance(x, rng))
    mon.event('modified')
    mon.judged('modified', kind, repr(wanted))
    found = gen.differences(wanted, target, parsed=parsed)
    mon.check(not found, 'modified', f'Values of a {kind} object after they were set: {found[:3]}', **context)
    xml = target.xml(tag, namespace=ns, elementFormDefault=efd)
    found = gen.differences(wanted, built.root.parsexml(xml), parsed=True)
    mon.check(not found, 'modified-document', f'Document of a {kind} object which was changed: {found[:3]}', document=xml, wanted=wanted, **context)


def roundtrip(mon, rng, index):
    options = gen.Options(omit=0.05)
    model = gen.random_model(rng, options)
    with gen.Built(model, rng, register=rng.random() < 0.7) as built:
        for _ in range(2):
            obj = gen.random_obj(rng, model.root, options)
            instance = built.instance(obj, rng)
            context = {'model': model, 'values': obj}
            found = gen.differences(obj, instance)
            mon.check(not found, 'assigned', f'Instance differs from what was assigned: {found[:3]}', **context)
            tag = rng.choice(['root', 'r-o.ot', model.root.name])
            ns = rng.choice([None, model.tns, 'urn:root'])
            efd = rng.choice([model.efd, None])
            xml = instance.xml(tag, namespace=ns, elementFormDefault=efd, pretty_print=rng.random() < 0.5)
            parsed = built.root.parsexml(xml if rng.random() < 0.7 else xml.decode())
            mon.judged(repr(model)[:300], xml)
            mon.sample(model=model, document=xml)
            count(mon, obj)
            if depth(obj) > 3:
                mon.event('recursive')
            found = gen.differences(obj, parsed, parsed=True)
            if found:
                path, field, expected, actual = found[0]
                kind = field.kind if field is not None else 'nil'
                mon.violation(f'changed-{kind}', f'{path}: {expected!r} became {actual!r}', document=xml, **context)
                continue
            if model.root.indicator == 'Choice' and not any(f.kind != 'attribute' for f in model.root.fields):
                continue
            if rng.random() < 0.2:
                whole(mon, rng, built.root, instance, obj, tag, ns, context)
            if rng.random() < 0.15:
                duplicate(mon, rng, obj, instance, parsed, tag, context)
            again = parsed.xml(tag, namespace=ns, elementFormDefault=efd)
            found = gen.differences(obj, built.root.parsexml(again), parsed=True)
            mon.check(not found, 'second-trip', f'Changed by the second trip: {found[:3]}', document=xml, again=again, **context)
            mon.check(canonical(xml) == canonical(again) or numbers(obj), 'second-document', 'Second document differs',
                      document=xml, again=again, **context)
            found = gen.differences(obj, instance)
            mon.check(not found, 'mutated', f'Rendering changed the instance: {found[:3]}', **context)
            if rng.random() < 0.3:
                target, is_parsed = rng.choice([(instance, False), (parsed, True), (parsed, True)])
                modify(mon, rng, built, obj, target, gen.random_obj(rng, model.root, options), is_parsed, rng.choice([tag, 'other']), ns, efd, context)


def canonical(xml):
    from lxml import etree
    root = etree.fromstring(xml, etree.XMLParser(remove_blank_text=True))
    return etree.tostring(root, method='c14n')


def numbers(obj):
    """Does the object contain floating point values given as integers?  Their text changes (3 -> 3.0)."""
    for field in obj.type.all_fields():
        value = obj.values[field.py]
        for x in value if isinstance(value, list) else [value]:
            if isinstance(x, gen.Obj):
                if numbers(x):
                    return True
            elif isinstance(field.type, gen.Simple) and field.type.builtin in lex.FLOATS + ['decimal'] and x is not None:
                return True
    return False


def copies(mon, rng, index):
    """Objects rendered inside of another object are the same as on their own."""
    options = gen.Options(complex=0.6, max_types=4)
    model = gen.random_model(rng, options)
    with gen.Built(model, rng) as built:
        obj = gen.random_obj(rng, model.root, options)
        instance = built.instance(obj, rng)
        xml = instance.xml('a')
        parsed = built.root.parsexml(xml)
        # A parsed object can be used like one that was built: render parts of it and put them into another object.
        other = built.root()
        for field in model.root.all_fields():
            value = getattr(parsed, field.py)
            if field.kind == 'list':
                for x in value:
                    getattr(other, field.py).append(x)
            elif value is not None:
                setattr(other, field.py, value)
        found = gen.differences(obj, built.root.parsexml(other.xml('a')), parsed=True)
        mon.judged(xml, 'copy')
        mon.check(not found, 'copied', f'Parsed parts are not usable: {found[:3]}', document=xml, model=model)


def choices(mon, rng, index):
    """Choices within choices which share the names of their alternatives, some of them empty."""
    from soapfish import xsd
    names = ['a', 'b', 'c'][:rng.randint(1, 3)]
    classes = [None] * rng.randint(1, 3)
    shapes, lazy = [], {}
    for i in range(len(classes)):
        shape = {n: rng.choice([rng.randrange(len(classes)), rng.randrange(len(classes)), 'text', 'list']) for n in names}
        shapes.append(shape)
    module = types.ModuleType('vf_choices')
    sys.modules['vf_choices'] = module
    for i, shape in enumerate(shapes):
        fields = {'INDICATOR': xsd.Choice}
        for n, kind in shape.items():
            if kind == 'text':
                fields[n] = xsd.Element(xsd.String, minOccurs=0)
            elif kind == 'list':
                lazy[i, n] = rng.randrange(len(classes))
                fields[n] = xsd.ListElement(f'vf_choices.Choice{lazy[i, n]}', n, minOccurs=0)
            else:
                fields[n] = xsd.Element(f'vf_choices.Choice{kind}', minOccurs=0)
        classes[i] = type(f'Choice{i}', (xsd.ComplexType,), fields)
        setattr(module, f'Choice{i}', classes[i])

    def make(i, depth):
        if rng.random() < 0.25 or depth > 5:
            return None
        n = rng.choice(names)
        kind = shapes[i][n]
        if kind == 'text':
            return n, rng.choice(['x', 'y z', '1'])
        if kind == 'list':
            return n, [make(lazy[i, n], depth + 1) for _ in range(rng.randint(1, 2))]
        return n, make(kind, depth + 1)

    def build(i, tree):
        obj = classes[i]()
        if tree is not None:
            n, value = tree
            kind = shapes[i][n]
            setattr(obj, n, value if kind == 'text' else [build(lazy[i, n], v) for v in value] if kind == 'list' else build(kind, value))
        return obj

    def read(i, obj):
        chosen = [(n, getattr(obj, n)) for n in names if getattr(obj, n) not in (None, [])]
        assert len(chosen) < 2, chosen
        if not chosen:
            return None
        n, value = chosen[0]
        kind = shapes[i][n]
        return n, value if kind == 'text' else [read(lazy[i, n], v) for v in value] if kind == 'list' else read(kind, value)

    for _ in range(4):
        tree = make(0, 0)
        tag = rng.choice(names + ['root'])
        if tree is None and tag != 'root':
            continue
        xml = build(0, tree).xml(tag)
        back = read(0, classes[0].parsexml(xml))
        mon.event('choice-in-choice')
        mon.judged('choices', xml, str(shapes))
        mon.check(back == tree, 'changed-choice', f'{tree} became {back}', document=xml, shapes=shapes)


def decimal_precision(mon, rng, index):
    """Known finding: text of xsd.Decimal is read as a float."""
    from decimal import Decimal

    from soapfish import xsd
    cls = type('Amount', (xsd.ComplexType,), {'value': xsd.Element(xsd.Decimal)})
    value = [Decimal('0.12345678901234567890123'), Decimal('12345678901234567.89'), Decimal('1234567890.12345678901')][index]
    back = cls.parsexml(cls(value=value).xml('a')).value
    mon.judged('decimal', value)
    mon.check(Decimal(str(back)) == value, 'decimal-precision', f'{value} became {back!r}')


def groups(tier):
    n = 150 if tier == 'thorough' else 8
    return [Group('roundtrip', roundtrip, 1200 * n), Group('copies', copies, 150 * n), Group('choices', choices, 60 * n), Group('decimal', decimal_precision, 3)]
