"""C02: rendered XML is exactly what the model declares."""
from lxml import etree

from soapfish import soap11, soap12, xsd
from vf import gen
from vf.core import Group

PROPERTY = 'C02'
RULE = ('A case renders random instances of randomly declared classes and compares the document with the tree the '
        'declaration stands for; non-trivial and distinct by declaration and document.')
REQUIRED = {'elements': 3000, 'attributes': 300, 'nil': 50, 'qualified': 500, 'unqualified': 500, 'refused-short': 20,
            'refused-long': 20, 'refused-attribute': 20, 'envelopes': 50, 'polymorphic': 10, 'documents': 500}


def observe(mon, node):
    for x in node.walk():
        mon.event('elements')
        mon.event('attributes', len(x.attributes))
        mon.event('qualified' if x.ns else 'unqualified')
        if x.nil:
            mon.event('nil')


def classify(found):
    text = found[0]
    for word in ('children', 'attributes', 'nil', 'element', 'text'):
        if word in text.split(': ', 1)[-1][:16]:
            return word
    return 'value'


def judge(mon, model, obj, node, xml, key='document'):
    root = etree.fromstring(xml) if isinstance(xml, bytes) else xml
    xml = xml if isinstance(xml, bytes) else etree.tostring(xml, encoding='utf-8')
    found = gen.compare_document(node, root)
    mon.judged(key, xml)
    observe(mon, node)
    if found:
        mon.violation(f'{key}-{classify(found)}', f'Rendered document differs: {found[:3]}', document=xml, model=model, values=obj)


def document_class(rng, cls, tag, ns):
    """A class for whole documents, the name of its field."""
    name = tag if tag.isidentifier() and rng.random() < 0.7 else 'content'
    element = xsd.Element(cls) if name == tag else xsd.Element(cls, tagname=tag)
    return type('Whole', (xsd.Document,), {'NAMESPACE': ns, name: element}), name


def render(mon, rng, index):
    options = gen.Options(omit=0.1, override=0.15, two_tns=0.3)
    model = gen.random_model(rng, options)
    with gen.Built(model, rng, register=rng.random() < 0.7) as built:
        registered = bool(built.schemas)
        if not registered:
            for c in model.groups + model.complexes:
                c.tns = None
        for _ in range(2):
            obj = gen.random_obj(rng, model.root, options)
            instance = built.instance(obj, rng)
            tag = rng.choice(['root', 'r-o.ot', '\xe9l\xe9ment'])
            ns = rng.choice([None, None if model.tns is None else model.tns, 'urn:root', ''])
            efd = rng.choice(['qualified', 'qualified', 'unqualified', None])
            xml = instance.xml(tag, namespace=ns, elementFormDefault=efd, pretty_print=rng.random() < 0.5)
            judge(mon, model, obj, gen.document(obj, tag, ns, efd), xml)
            mon.sample(model=model, document=xml)
            if rng.random() < 0.2:
                cls, name = document_class(rng, built.root, tag, ns)
                mon.event('documents')
                judge(mon, model, obj, gen.document(obj, tag, ns, None), cls(**{name: instance}).render(), 'whole')


def envelope(mon, rng, index):
    """Body and header of envelopes, rendered with the schema of their types."""
    options = gen.Options(tns=1, two_tns=0, max_types=3)
    model = gen.random_model(rng, options)
    header = gen.Complex('HeaderParts', tns=model.tns)
    for i in range(rng.randint(1, 3)):
        # The parts of a header declare their namespace (see known finding C02).
        kind = rng.choice(['element', 'element', 'list'])
        part = rng.choice(model.complexes + model.simples + [gen.Simple('string')])
        header.fields.append(gen.Field(kind, f'part{i}', f'Part-{i}', part, 0, nillable=rng.random() < 0.3,
                                       ns=rng.choice([model.tns, 'urn:part'])))
    model.complexes.append(header)
    with gen.Built(model, rng) as built:
        soap = rng.choice([soap11, soap12])
        obj, head = gen.random_obj(rng, model.root, options), None
        if rng.random() < 0.5:
            head = gen.random_obj(rng, header, options)
            mon.event('headers')
        tag = rng.choice(['root', 'Operation'])
        xml = soap.Envelope.response(tag, built.instance(obj, rng), header=built.instance(head, rng) if head else None)
        root = etree.fromstring(xml)
        env = soap.ENVELOPE_NAMESPACE
        mon.event('envelopes')
        mon.judged('envelope', xml)
        names = [c.tag for c in root]
        expected = ([f'{{{env}}}Header'] if head else []) + [f'{{{env}}}Body']
        if not mon.check(root.tag == f'{{{env}}}Envelope' and names == expected, 'envelope', f'Envelope has {names}', document=xml):
            return
        body = root[-1]
        if not mon.check(len(body) == 1 and not body.attrib, 'envelope-body', 'Body does not have exactly one element', document=xml):
            return
        # The message is rendered by the schema of its type.
        judge(mon, model, obj, gen.document(obj, tag, model.tns, model.efd), body[0], 'message')
        if head:
            node = gen.document(head, 'Header', env, 'qualified')
            root[0].tag = f'{{{env}}}Header'
            found = gen.compare_document(node, root[0])
            mon.check(not found, 'header', f'Header differs: {found[:3]}', document=xml, model=model)


def header_namespace(mon, rng, index):
    """Known finding: header children which declare no namespace get the one of the envelope, not of their schema."""
    cls = type('Head', (xsd.ComplexType,), {'Version': xsd.Element(xsd.String)})
    body = type('Nothing', (xsd.ComplexType,), {})
    xsd.Schema('urn:head', elementFormDefault='qualified', complexTypes=[cls, body])
    soap = [soap11, soap12][index]
    root = etree.fromstring(soap.Envelope.response('x', body(), header=cls(Version='1')))
    mon.judged('header-namespace', index)
    mon.check(root[0][0].tag == '{urn:head}Version', 'header-namespace', f'Header child is {root[0][0].tag}')


def break_occurrence(rng, obj):
    """All ways to violate occurrence: (kind, function which breaks an instance)."""
    found = []
    for field in obj.type.all_fields():
        if field.kind == 'list':
            if field.min and obj.type.indicator != 'Choice':
                found.append(('short', field, field.min - 1))
            if field.max is not None:
                found.append(('long', field, field.max + rng.randint(1, 2)))
        elif field.kind == 'attribute' and field.min:
            found.append(('attribute', field, None))
    return found


def refuse(mon, rng, index):
    options = gen.Options(lists=0.4, attributes=0.3, default=0, tns=0.3)
    model = gen.random_model(rng, options)
    with gen.Built(model, rng) as built:
        obj = gen.random_obj(rng, model.root, options)
        instance = built.instance(obj, rng)
        instance.xml('root')
        # Pick any object in the tree.
        targets = [(obj, instance)]
        for field in model.root.all_fields():
            value, actual = obj.values[field.py], getattr(instance, field.py)
            if isinstance(value, gen.Obj):
                targets.append((value, actual))
            elif isinstance(value, list):
                targets += [(v, a) for v, a in zip(value, actual) if isinstance(v, gen.Obj)]
        target, actual = rng.choice(targets)
        breaks = break_occurrence(rng, target)
        if not breaks:
            return
        kind, field, n = rng.choice(breaks)
        if kind == 'attribute':
            setattr(actual, field.py, None)
        else:
            items = list(getattr(actual, field.py))
            if not items:
                source = field.type
                items = [source.value(rng) if isinstance(source, gen.Simple) else
                         built.instance(gen.random_obj(rng, source, options, 2), rng)]
            items = (items * (n + 1))[:n]
            if kind == 'short' and rng.random() < 0.5:
                del getattr(actual, field.py)[n:]
            else:
                setattr(actual, field.py, items)
        mon.event(f'refused-{kind}')
        mon.judged('refused', kind, repr(model)[:200])
        mon.raises(ValueError, f'not-refused-{kind}', f'{kind} {field} rendered', instance.xml, 'root')


def polymorphic(mon, rng, index):
    """An instance of a derived type can be used for its base type and renders all of its fields."""
    options = gen.Options(inherit=0.8, tns=0.5, two_tns=0, max_types=4)
    model = gen.random_model(rng, options)
    derived = [c for c in model.complexes if c.base]
    if not derived:
        return
    cls = rng.choice(derived)
    holder = gen.Complex('Holder', tns=model.tns)
    kind = rng.choice(['element', 'list'])
    holder.fields = [gen.Field(kind, 'held', 'held', cls.base, 0), gen.Field('element', 'after', 'after', gen.Simple('int'))]
    model.complexes.append(holder)
    with gen.Built(model, rng) as built:
        inner = gen.random_obj(rng, cls, options)
        obj = gen.Obj(holder, {'held': [inner] if kind == 'list' else inner, 'after': 5})
        xml = built.instance(obj, rng).xml('holder', namespace=model.tns, elementFormDefault=model.efd)
        mon.event('polymorphic')
        judge(mon, model, obj, gen.document(obj, 'holder', model.tns, model.efd), xml, 'derived')


def groups(tier):
    n = 60 if tier == 'thorough' else 3
    return [Group('render', render, 6000 * n), Group('envelope', envelope, 1000 * n), Group('refuse', refuse, 2000 * n),
            Group('polymorphic', polymorphic, 500 * n), Group('header-namespace', header_namespace, 2)]
