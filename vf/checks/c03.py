"""C03: parsing depends only on what the XML says, not on how it is spelled."""
from lxml import etree

from soapfish import soap11, soap12
from vf import gen
from vf.core import Group

PROPERTY = 'C03'
RULE = ('A case parses several random spellings of one instance document of randomly declared classes; non-trivial and '
        'distinct by the bytes of the document.')
REQUIRED = {'spellings': 3000, 'comments': 300, 'cdata': 200, 'pi': 200, 'encoding:utf-16': 100, 'encoding:iso-8859-1': 100,
            'unknown': 300, 'charref': 300, 'nil': 50, 'alternatives': 20, 'wrapped': 100}


def parse(mon, rng, built, model, obj, node, how, style=gen.WILD):
    encoding = rng.choice(gen.ENCODINGS) if how == 'direct' else 'utf-8'
    if how == 'direct':
        xml = gen.spell(rng, node, style, encoding=encoding or 'utf-8')
    else:
        xml = gen.Speller(rng, 'utf-8', style).element(node, {})
    text = xml if isinstance(xml, str) else xml.decode('utf-16' if encoding == 'utf-16' else 'latin-1')
    mon.event(f'encoding:{encoding}')
    for name, mark in (('comments', '<!--'), ('cdata', '<![CDATA['), ('pi', '<?pi'), ('unknown', 'nknown'), ('charref', '&#'),
                       ('nil', ':nil=')):
        if mark in text:
            mon.event(name)
    if how == 'direct':
        parsed = built.root.parsexml(xml)
    elif how == 'element':
        parsed = built.root.parse_xmlelement(etree.fromstring(xml))
    else:
        soap = rng.choice([soap11, soap12])
        env = soap.ENVELOPE_NAMESPACE
        misc = rng.choice(['', '<!-- x -->', '<?pi?>', '\n'])
        xml = (f'<e:Envelope xmlns:e="{env}">{misc}<e:Body>{misc}{xml}{misc}</e:Body>{misc}</e:Envelope>').encode()
        parsed = soap.Envelope.parsexml(xml).Body.parse_as(built.root)
        mon.event('wrapped')
    mon.event('spellings')
    mon.judged(xml)
    found = gen.differences(obj, parsed, parsed=True)
    if found:
        path, field, expected, actual = found[0]
        kind = field.kind if field is not None else 'nil'
        mon.violation(f'parsed-{kind}', f'{path}: {actual!r} instead of {expected!r}', document=xml, model=model, values=obj)
    return xml


def spellings(mon, rng, index):
    options = gen.Options(instance=False, omit=0.05, default=0.12, all=0.2)
    model = gen.random_model(rng, options)
    with gen.Built(model, rng, register=rng.random() < 0.5) as built:
        obj = gen.random_obj(rng, model.root, options)
        efd = rng.choice(['qualified', 'unqualified'])
        node = gen.document(obj, 'root', rng.choice([None, 'urn:root']), efd)
        for how in ('direct', 'direct', 'element', 'envelope'):
            xml = parse(mon, rng, built, model, obj, node, how)
        mon.sample(model=model, document=xml)


def single(mon, rng, index):
    """One feature of the spelling at a time but a lot of it."""
    options = gen.Options(instance=False, max_types=3, odd=0.3)
    model = gen.random_model(rng, options)
    feature = rng.choice([k for k in gen.WILD if k != 'lexical'] + ['lexical'])
    style = dict(gen.PLAIN, **{feature: True if feature == 'lexical' else min(0.45, gen.WILD[feature] * 3) or 1})
    with gen.Built(model, rng, register=False) as built:
        obj = gen.random_obj(rng, model.root, options)
        node = gen.document(obj, 'root', 'urn:root', rng.choice(['qualified', 'unqualified']))
        parse(mon, rng, built, model, obj, node, 'direct', style)


def alternative(mon, rng, index):
    """A choice can be parsed from the chosen element itself."""
    options = gen.Options(choice=1, max_types=2, inherit=0, complex=0.2)
    model = gen.random_model(rng, options)
    if model.root.indicator != 'Choice' or any(f.kind == 'attribute' for f in model.root.fields):
        return
    with gen.Built(model, rng) as built:
        obj = gen.random_obj(rng, model.root, options)
        node = gen.document(obj, 'root', None, 'unqualified')
        if len(node.children) != 1:
            return
        names = {f.tag for f in model.root.fields}
        child = node.children[0]
        if child.nil or any(x.tag in names for x in child.children):
            return
        xml = gen.spell(rng, child, dict(gen.WILD, unknown=0))
        parsed = built.root.parsexml(xml)
        mon.event('alternatives')
        mon.judged('alternative', xml)
        found = gen.differences(obj, parsed, parsed=True)
        mon.check(not found, 'alternative', f'Chosen element is not parsed: {found[:2]}', document=xml, model=model)


def groups(tier):
    n = 60 if tier == 'thorough' else 3
    return [Group('spellings', spellings, 4000 * n), Group('single', single, 4000 * n), Group('alternative', alternative, 1500 * n)]
