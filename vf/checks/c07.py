"""C07: code generated from an XSD accepts and reproduces its instance documents and refuses what breaks its constraints."""
import types

from lxml import etree

from soapfish import py2xsd, xsd, xsd2py
from vf import gen, lex, mutate, xsdgen
from vf.checks import c06
from vf.core import Group

PROPERTY = 'C07'
RULE = ('A case writes an XSD with random components in a random spelling, imports the code generated from it and passes valid '
        'and broken documents through the generated classes, with libxml2 and the XSD as reference; distinct by document.')
STRICT = dict(gen.WILD, unknown=0, nilfalse=0)
FACETS = [k for k in c06.FACETS]
REQUIRED = {'schemas': 300, 'valid': 800, 'built': 800, 'again': 300, 'elements': 600, 'substitution': 30, 'anonymous': 30,
            'simple-element': 30, 'restricted': 30, 'extension': 100, 'choice': 100, 'all': 60, 'attribute-group': 60, 'simple-types': 200, 'group': 40,
            'refused-parse': 1500, 'refused-set': 400, 'refused-append': 60, 'refused-render': 200, 'keywords': 30, 'old-namespace': 30}
REQUIRED.update({f'broken:{k}': 10 for k in ['nil', 'long-list', 'short-list', 'missing-attribute', 'range', 'lexical']})
REQUIRED.update({f'broken:{k}': 10 for k in FACETS})
PARSE = {'nil', 'long-list'}
RENDER = {'short-list', 'missing-attribute'}


def options(**kwargs):
    return gen.Options(tns=1, two_tns=0, group=0, override=0, default=0, renamed=0, swapped=0, narrow=True, attribute_inline=0, **kwargs)


def refusals(kind):
    """What happens to a document with this defect."""
    name = kind[len('attribute-'):] if kind.startswith('attribute-') else kind
    return 'parse' if kind in PARSE or name in FACETS or name in ('range', 'lexical') else 'render' if kind in RENDER else None


def compiled_xsd(source):
    """The reference must understand the XSD, otherwise the harness is wrong."""
    try:
        return etree.XMLSchema(etree.fromstring(source))
    except etree.XMLSchemaParseError as e:
        raise AssertionError(f'{e}: {source.decode("utf8", "replace")}')


class Case:
    def __init__(self, mon, rng, opts):
        self.mon, self.rng, self.opts = mon, rng, opts
        self.model = xsdgen.random_model(rng, opts, c06.add_elements)
        if rng.random() < 0.15:
            self.model.groups.append(group_definition(rng, self.model))
        self.writer = xsdgen.Writer(rng, self.model)
        self.source = self.writer.document()
        self.compiled = compiled_xsd(self.source)
        # Attribute groups are not part of generated XSD, see LIMITATIONS.md.
        self.writable = not any(g.role == 'AttributeGroup' for g in self.model.groups)
        self.context = {'xsd': self.source, 'model': self.model}


def group_definition(rng, model):
    """Group definitions become classes but references are not read."""
    group = gen.Complex('Parts', role='Group', tns=model.tns)
    for tag in rng.sample(['street', 'City', 'import', 'zip-code', 'n'], rng.randint(1, 3)):
        group.fields.append(gen.Field('element', tag, tag, gen.pick_type(rng, model.options, model)))
    return group


def count(mon, model):
    mon.event('schemas')
    mon.event('anonymous', sum(c.anonymous for c in model.complexes))
    mon.event('substitution', len(model.heads))
    mon.event('simple-element', sum(isinstance(t, gen.Simple) for t in model.elements.values()))
    mon.event('restricted', sum(isinstance(c, xsdgen.Restricted) for c in model.complexes))
    mon.event('extension', sum(c.base is not None for c in model.complexes))
    mon.event('choice', sum(c.indicator == 'Choice' for c in model.complexes))
    mon.event('all', sum(c.indicator == 'All' for c in model.complexes))
    mon.event('attribute-group', sum(f.kind == 'attributes' for c in model.complexes for f in c.fields))
    mon.event('simple-types', len(model.simples))
    mon.event('keywords', sum(f.tag in ('import', 'class', 'from', 'None', 'def') for c in model.complexes for f in c.fields))


def schema_object(mon, rng, generated, model, context):
    """The one schema object and its elements."""
    schemas = generated.schemas()
    if not mon.check(len(schemas) == 1, 'schema-objects', f'{len(schemas)} schema objects', **context):
        return None
    schema = schemas[0]
    mon.check(schema.targetNamespace == model.tns, 'target-namespace', f'{schema.targetNamespace!r} instead of {model.tns!r}', **context)
    mon.check((schema.elementFormDefault or 'unqualified') == model.efd, 'form-default', f'{schema.elementFormDefault!r}', **context)
    mon.check(sorted(schema.elements) == sorted(model.elements), 'elements', f'{sorted(schema.elements)} instead of {sorted(model.elements)}', **context)
    for name, type in model.elements.items():
        mon.event('elements')
        element = schema.get_element_by_name(name)
        if not mon.check(element is not None, 'element-missing', f'No element {name}', **context):
            continue
        if isinstance(type, gen.Complex):
            mon.check(schema.get_element_by_name(name) is element, 'element-again', f'{name} is another element the second time', **context)
            obj = gen.random_obj(rng, type, model.options)
            text = f'<h>{gen.plain(gen.document(obj, name, model.tns, model.efd))}</h>'
            holder = types.new_class('Holder', (xsd.ComplexType,), {}, lambda ns: ns.update({name: element}))
            value = getattr(holder.parsexml(text), name)
            mon.check(isinstance(value, generated.classes[type]) and not generated.differences(obj, value), 'element-type',
                      f'{name} is read as {value}', document=text, **context)
        head = model.heads.get(name)
        actual = element.substitutionGroup
        mon.check((actual or '').split(':')[-1] == (head or ''), 'substitution-group', f'{name}: {actual!r} instead of {head!r}', **context)
    return schema


def faithful(mon, rng, index):
    case = Case(mon, rng, options())
    model, context = case.model, case.context
    count(mon, model)
    code = xsd2py.generate_code_from_xsd(case.source)
    context['code'] = code
    try:
        with xsdgen.Module(code) as module:
            mon.sample(xsd=case.source, code=code)
            generated = xsdgen.Generated(module, model, case.writer.names)
            if not mon.check(not generated.missing, 'missing', f'{generated.missing[:5]}', **context):
                return
            schema = schema_object(mon, rng, generated, model, context)
            if schema is None:
                return
            names = [n for n, t in model.elements.items() if isinstance(t, gen.Complex)]
            for name in rng.sample(names, min(len(names), 3)):
                documents(case, generated, schema, name)
            simple_types(case, generated)
            group_classes(case, generated)
            if case.writable and rng.random() < 0.6:
                again(case, generated, schema)
            if rng.random() < 0.1:
                old_namespace(case)
    except (SyntaxError, NameError, ImportError, TypeError, AttributeError) as e:
        mon.violation('import', f'Generated code can not be used: {e!r}', **context)


def documents(case, generated, schema, name):
    mon, rng, model, context = case.mon, case.rng, case.model, case.context
    declared = model.elements[name]
    cls = generated.classes[declared]
    render = lambda instance: instance.xml(name, namespace=model.tns, elementFormDefault=model.efd)
    for _ in range(2):
        obj = gen.random_obj(rng, declared, case.opts)
        node = gen.document(obj, name, model.tns, model.efd)
        text = gen.spell(rng, node, STRICT, encoding='utf-8')
        if not case.compiled.validate(etree.fromstring(text)):
            raise AssertionError(f'{case.compiled.error_log.last_error}: {text} {case.source}')
        mon.event('valid')
        mon.judged(text)
        # Parse and render.
        try:
            parsed = cls.parsexml(text, **({'schema': schema} if case.writable and rng.random() < 0.2 else {}))
        except (ValueError, etree.XMLSyntaxError, etree.DocumentInvalid) as e:
            mon.violation('valid-refused', f'Valid document is refused: {e!r}', document=text, **context)
            continue
        found = generated.differences(obj, parsed)
        mon.check(not found, 'parsed', f'{found[:3]}', document=text, **context)
        judge_rendered(case, render, parsed, node, 'parsed', text)
        # Build and render.
        mon.event('built')
        try:
            instance = generated.instance(obj, rng)
        except (ValueError, TypeError) as e:
            mon.violation('build-refused', f'Valid object is refused: {e!r}', document=text, **context)
            continue
        judge_rendered(case, render, instance, node, 'built', text)
        broken(case, cls, node, name, render)
    constraints(case, generated, generated.instance(gen.random_obj(rng, declared, case.opts), rng), declared)
    create(case, generated, declared, name, render)


def judge_rendered(case, render, instance, node, what, text):
    mon = case.mon
    try:
        xml = render(instance)
    except ValueError as e:
        mon.violation(f'{what}-not-rendered', f'Valid object is not rendered: {e!r}', document=text, **case.context)
        return
    root = etree.fromstring(xml)
    found = gen.compare_document(node, root)
    mon.check(not found, f'{what}-rendered', f'{found[:3]}', document=text, rendered=xml, **case.context)
    mon.check(case.compiled.validate(root), f'{what}-invalid', f'Rendered document is not valid: {case.compiled.error_log.last_error}',
              document=text, rendered=xml, **case.context)


def broken(case, cls, node, name, render):
    """Documents which violate one constraint."""
    mon, rng = case.mon, case.rng
    for kind, changed in mutate.mutations(rng, node):
        where = refusals(kind)
        if where is None:
            continue
        text = gen.spell(rng, changed, STRICT, encoding='utf-8')
        if case.compiled.validate(etree.fromstring(text)):
            raise AssertionError(f'{kind}: {text} {case.source}')
        if kind.endswith('lexical') and tolerated(node, changed):
            continue
        mon.event(f'broken:{kind[10:] if kind.startswith("attribute-") else kind}')
        mon.judged(text)
        if where == 'parse':
            mon.event('refused-parse')
            mon.raises(ValueError, f'parsed-{kind}', f'Document with {kind} is parsed: {text}', cls.parsexml, text)
        else:
            mon.event('refused-render')
            try:
                parsed = cls.parsexml(text)
            except ValueError:
                continue
            mon.raises(ValueError, f'rendered-{kind}', f'Document with {kind} is rendered: {text}', render, parsed)


def tolerated(node, changed):
    """The classes do not know the lexical rules of types which are strings for them."""
    for one, two in zip(node.walk(), changed.walk()):
        if one.leaf and two.leaf and one.leaf is not two.leaf and one.leaf != two.leaf:
            # An empty element is None without a schema.
            return one.leaf[0].builtin in lex.STRINGS or two.leaf[1] == ''
        for a, b in zip(one.attributes, two.attributes):
            if a != b:
                return a[1].builtin in lex.STRINGS
    return False


def constraints(case, generated, instance, declared):
    """Values which violate a facet can not be assigned."""
    mon, rng = case.mon, case.rng
    for field in declared.all_fields():
        if not isinstance(field.type, gen.Simple):
            continue
        bad = mutate.bad_text(rng, field.type)
        if bad is None or bad[0] == 'lexical':
            continue
        try:
            value = bad[1] if field.type.builtin in lex.STRINGS else lex.denote(field.type.builtin, bad[1])
        except lex.Invalid:
            continue
        mon.judged('set', field, bad)
        where = generated.fields[declared, field]
        if field.kind == 'list':
            mon.event('refused-append')
            mon.raises(ValueError, f'append-{bad[0]}', f'{value!r} is appended to {field}', getattr(instance, where).append, value)
        else:
            mon.event('refused-set')
            mon.raises(ValueError, f'set-{bad[0]}', f'{value!r} is assigned to {field}', setattr, instance, where, value)


def simple_types(case, generated):
    """The classes of named simple types accept and refuse the same values."""
    mon, rng = case.mon, case.rng
    for simple in case.model.simples:
        cls = getattr(generated.module, case.writer.names.python(simple, case.model), None)
        if not mon.check(isinstance(cls, type) and issubclass(cls, xsd.SimpleType), 'simple-type', f'No class for {simple}: {cls}', **case.context):
            continue
        holder = type('Holder', (xsd.ComplexType,), {'v': xsd.Element(cls)})
        value = simple.value(rng)
        mon.judged('simple', simple, value)
        try:
            holder(v=value)
        except ValueError as e:
            mon.violation('simple-refused', f'{value!r} is refused by {simple}: {e}', **case.context)
        bad = mutate.bad_text(rng, simple)
        if bad and bad[0] != 'lexical':
            text = f'<h><v>{"".join(gen.Speller(rng).char(c) for c in bad[1])}</v></h>'
            mon.judged('simple', simple, bad)
            mon.raises(ValueError, f'simple-{bad[0]}', f'{bad[1]!r} is accepted by {simple}', holder.parsexml, text)


def group_classes(case, generated):
    mon, rng = case.mon, case.rng
    for group in case.model.groups:
        if group.role != 'Group':
            continue
        mon.event('group')
        cls = getattr(generated.module, case.writer.names.python(group, case.model), None)
        if not mon.check(isinstance(cls, type) and issubclass(cls, xsd.Group), 'group', f'No class for {group}: {cls}', **case.context):
            continue
        obj = gen.random_obj(rng, group, case.opts)
        node = gen.document(obj, 'g', None, 'unqualified')
        found = [xsdgen.attributes_for(cls, f) for f in group.fields]
        if not mon.check(all(len(x) == 1 for x in found), 'group-fields', f'{found} of {group}', **case.context):
            continue
        parsed = cls.parsexml(gen.spell(rng, node, STRICT))
        for f, (where,) in zip(group.fields, found):
            value = getattr(parsed, where)
            mon.judged('group', f, value)
            mon.check(f.type.same(obj.values[f.py], value), 'group-value', f'{f}: {value!r} instead of {obj.values[f.py]!r}', **case.context)
            bad = mutate.bad_text(rng, f.type)
            if bad and bad[0] != 'lexical':
                text = f'<g><{f.tag}>{"".join(gen.Speller(rng).char(c) for c in bad[1])}</{f.tag}></g>'
                if bad[1]:
                    mon.raises(ValueError, f'group-{bad[0]}', f'{bad[1]!r} is accepted for {f}', cls.parsexml, text)


def create(case, generated, declared, name, render):
    """The generated constructor function takes the required elements in their order."""
    mon, rng = case.mon, case.rng
    if declared.base or declared.indicator != 'Sequence' or isinstance(declared, xsdgen.Restricted):
        return
    cls = generated.classes[declared]
    obj = gen.random_obj(rng, declared, case.opts)
    required = [f for f in declared.fields if f.kind == 'element' and f.min]
    if not required or any(obj.values[f.py] is None for f in required):
        return
    for f in declared.fields:
        if f.kind == 'attributes' or f.min and f.kind != 'element':
            return
        if f not in required:
            obj.values[f.py] = [] if f.kind == 'list' else None
    value = lambda x: generated.instance(x, rng) if isinstance(x, gen.Obj) else x
    mon.event('create')
    try:
        instance = cls.create(*[value(obj.values[f.py]) for f in required])
    except TypeError as e:
        mon.violation('create', f'create() does not take the required elements: {e}', **case.context)
        return
    node = gen.document(obj, name, case.model.tns, case.model.efd)
    judge_rendered(case, render, instance, node, 'created', '')


def old_namespace(case):
    """The namespace of the last draft means the same as the one of the recommendation."""
    case.mon.event('old-namespace')
    text = etree.tostring(etree.fromstring(case.source))
    codes = [xsd2py.generate_code_from_xsd(text.replace(b'"%s"' % xsdgen.XS.encode(), b'"%s"' % namespace)) for namespace in [xsdgen.XS.encode(), b'http://www.w3.org/2000/10/XMLSchema']]
    codes = [[line for line in code.decode().splitlines() if not line.startswith('#')] for code in codes]
    difference = [(a, b) for a, b in zip(*codes) if a != b]
    case.mon.judged('old-namespace', text)
    case.mon.check(codes[0] == codes[1], 'old-namespace', f'In the namespace of 2000 the code is different: {difference[:3]}', **case.context)


def again(case, generated, schema):
    """The XSD generated from the generated classes says the same as the original."""
    mon, rng, model = case.mon, case.rng, case.model
    mon.event('again')
    source = etree.tostring(py2xsd.generate_xsd(schema))
    context = dict(case.context, again=source)
    try:
        compiled = etree.XMLSchema(etree.fromstring(source))
    except etree.XMLSchemaParseError as e:
        mon.violation('again-not-compiled', f'XSD generated from the generated classes is not valid: {e}', **context)
        return
    for name, type in model.elements.items():
        if not isinstance(type, gen.Complex):
            continue
        obj = gen.random_obj(rng, type, case.opts)
        node = gen.document(obj, name, model.tns, model.efd)
        text = gen.spell(rng, node, STRICT, encoding='utf-8')
        mon.judged('again', text)
        mon.check(compiled.validate(etree.fromstring(text)), 'again-refused', f'Valid document is refused: {compiled.error_log.last_error}', document=text, **context)
        for kind, changed in mutate.mutations(rng, node):
            text = gen.spell(rng, changed, STRICT, encoding='utf-8')
            mon.judged('again', text)
            mon.check(not compiled.validate(etree.fromstring(text)), f'again-{kind}', f'Document with {kind} is accepted', document=text, **context)


def groups(tier):
    n = 60 if tier == 'thorough' else 2
    return [Group('faithful', faithful, 1500 * n)]
