"""C21: text in a schema can never become code."""
import ast
import builtins
import os
import re
import shutil
import tempfile
import warnings
from xml.sax.saxutils import escape

from lxml import etree

from soapfish import py2wsdl, py2xsd, wsdl2py, xsd, xsd2py
from vf import svc, watch, xsdgen
from vf.checks import c08
from vf.core import Group

PROPERTY = 'C21'
RULE = ('A case puts hostile text into the values of an XSD or WSDL, generates code, compares its syntax tree with the one for harmless text, imports '
        'it while a canary function and audit events are watched and reads all values back; distinct by the text and its place.')
REQUIRED = {'xsd': 400, 'wsdl': 300, 'names': 200, 'imported': 700, 'executable': 400, 'structure': 700, 'multi-line': 200, 'template': 200, 'quotes': 300,
            'backslash': 200, 'files': 100, 'accepted': 800, 'refused': 600, 'enumeration': 800, 'pattern': 300, 'namespace': 500, 'action': 300, 'address': 200,
            'again': 500}
CALL = 'vf_canary()'
FRAGMENTS = [
    "'", '"', "'''", '"""', '\\', '\\\\', "\\'", '\\"', 'a\\', f"'); {CALL}; ('", f"']\n{CALL}\n['", f'\n{CALL}\n', f'\r{CALL}\r', f'\r\n    {CALL}',
    f'{{{{ {CALL} }}}}', '{{ 7*191 }}', '{% raw %}', '{%- if x %}', '{# c #}', '#}', '%}', '}}', '${host}', '$host', '%s %(x)s %', '{0} {x}', '{', '}',
    f"f'{{{CALL}}}'", '\\x41\\u0041\\N{BULLET}', '\\n', '\\N', '# comment', '# -*- coding: utf-7 -*-', '\u2028' + CALL, f'\x85{CALL}', 'é€\U0001f600', '\u202e',
    "r'", f"' + {CALL} + '", f'" + {CALL} + "', 'xsd.String', f'__import__("os")', f';{CALL}', 'None', 'True', '0', '1.5', '-3', '1_000', '0x10', '1e5', '\u0663',
    ' ', '\t', '<&>', ']]>', '&amp;', ')', '(', ',', ':', 'lambda: 0', '__name__', "' '", '\x7f', '\xa0', '\ufeff', '\ufffd', 'x' * 200, '~', '`', '|', '*', '?',
    f'\n    """\n{CALL}', "\\\n", "'\\\n'", '\\' * 3, "\\\\'", 'end', 'a b',
]


def text(rng, most=4, least=1, without=''):
    result = ''.join(rng.choice(FRAGMENTS) for _ in range(rng.randint(least, most)))
    return ''.join(c for c in result if c not in without)


class Values:
    """The hostile text of a document and harmless text for the same places."""

    def __init__(self, rng):
        self.rng, self.hostile, self.n = rng, True, 0
        self.used = []

    def __call__(self, kind, value):
        """Use a value or a harmless one."""
        self.n += 1
        self.used.append((kind, value))
        if self.hostile:
            return attribute(value)
        return {'number': '5', 'pattern': 'ab', 'address': 'http://example.com/x'}.get(kind, f'urn:t{self.n}')


def attribute(value):
    return escape(value, {'"': '&quot;', '\n': '&#10;', '\r': '&#13;', '\t': '&#9;'})


def namespace(rng, wild=False):
    """Only some characters are possible if a prefix is declared."""
    value = text(rng)
    return 'urn:' + (value if wild else re.sub(r"[^A-Za-z0-9'();,_.!~*:@&=+/-]", '', value))


def same_uri(one, two):
    """White space is collapsed in anyURI."""
    return ' '.join(one.split()) == ' '.join(two.split())


def comparable(mon, used):
    for kind, value in used:
        mon.judged(kind, value)
        mon.event(kind)
        mon.event('executable', CALL in value)
        mon.event('multi-line', len(value.splitlines()) > 1)
        mon.event('template', '{{' in value or '{%' in value or '{#' in value)
        mon.event('quotes', "'" in value or '"' in value)
        mon.event('backslash', '\\' in value)


class Mask(ast.NodeTransformer):
    """Remove the values from a syntax tree."""

    def visit_Constant(self, node):
        return ast.Constant('')

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node.operand if isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant) else node

    def visit_Name(self, node):
        node.id = re.sub('^Schema_[0-9a-f]+', 'Schema', node.id)
        return node


def structure(code):
    return ast.dump(Mask().visit(ast.parse(code)), indent=1)


class Execution:
    """Is anything but definitions executed?"""

    def __init__(self, mon, context):
        self.mon, self.context = mon, context

    def __enter__(self):
        self.calls = []
        builtins.vf_canary = lambda *args: self.calls.append(args) or 'canary'
        suspicious = {*watch.NETWORK, *watch.PROCESSES, 'open', 'os.listdir', 'os.remove', 'os.rename', 'os.mkdir', 'ctypes.dlopen'}
        self.recorder = watch.Recorder(lambda event, args: event in suspicious and not self.source(event, args))
        self.recorder.__enter__()

    def source(self, event, args):
        """Python looks for source code to show warnings and imports modules, soapfish reads the files a document refers to."""
        return event == 'open' and isinstance(args[0], str) and (args[0].endswith(('.py', '.pyc', '.jinja2')) or '/vf-c21-' in args[0])

    def __exit__(self, *args):
        self.recorder.__exit__(*args)
        del builtins.vf_canary
        self.mon.check(not self.calls, 'executed', 'Text of the document is executed', **self.context)
        self.mon.check(not self.recorder.events, 'audit', f'Code does {self.recorder.events[:3]}', **self.context)


def imported(mon, code, harmless, context):
    """Valid Python of the same structure as for harmless text."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('error', SyntaxWarning)
            found = structure(code)
    except (SyntaxError, ValueError) as e:
        mon.violation('syntax', f'Generated code is not valid: {e!r}', **context)
        return False
    if harmless is not None:
        mon.event('structure')
        wanted = structure(harmless)
        if found != wanted:
            different = next((a, b) for a, b in zip(found.splitlines() + [''], wanted.splitlines() + ['']) if a != b)
            mon.violation('structure', f'The text changes the generated code: {different}', harmless=harmless, **context)
    return True


# --- XSD ---------------------------------------------------------------------
def pattern(rng):
    """A pattern and a text it matches."""
    parts, matched = [], ''
    for c in text(rng, without='$^'):
        parts.append('\\' + c if c in '.\\?*+{}()[]|-' else c)
        matched += c
    return ''.join(parts), matched


class Document:
    """Slots for values of all kinds."""

    def __init__(self, rng, directory=None):
        self.rng = rng
        # Any text can be a namespace if nothing refers to it.
        self.wild = rng.random() < 0.3 and type(self) is Document
        self.tns = namespace(rng, self.wild)
        self.simples = []
        for i in range(rng.randint(1, 4)):
            kind = rng.choice(['enumeration', 'enumeration', 'pattern'])
            if kind == 'pattern':
                value = pattern(rng)
                if not value[1] or '  ' in value[1] or value[1] != value[1].strip():
                    kind = 'enumeration'
            if kind == 'enumeration':
                value = list(dict.fromkeys(text(rng) for _ in range(rng.randint(1, 4))))
            self.simples.append((f'T{i}', kind, value, rng.random() < 0.3 or self.wild))
        self.files, self.embedded = [], rng.random() < 0.3
        if directory and rng.random() < 0.6:
            for _ in range(rng.randint(1, 2)):
                name = text(rng, without='/\\?#:;%\x85\u2028\ufeff\r\n\t${}').strip()[:60]
                if name.strip(' .') and name not in [f for f, *_ in self.files]:
                    self.files.append((name, rng.choice(['include', 'import']) if not self.wild else 'import', namespace(rng, self.wild)))

    def references(self, value):
        body = ''
        for name, kind, ns in self.files:
            extra = f' namespace="{value("namespace", ns)}"' if kind == 'import' else ''
            # The name of the file is the same for the harmless variant.
            body += f'<xs:{kind} schemaLocation="{attribute(name)}"{extra}/>'
        return body

    def body(self, value):
        types, fields = '', ''
        for name, kind, x, inline in self.simples:
            facets = (f'<xs:pattern value="{value("pattern", x[0])}"/>' if kind == 'pattern' else
                      ''.join(f'<xs:enumeration value="{value("enumeration", e)}"/>' for e in x))
            restriction = f'<xs:restriction base="xs:string">{facets}</xs:restriction>'
            if inline:
                fields += f'<xs:element name="{name.lower()}" minOccurs="0"><xs:simpleType>{restriction}</xs:simpleType></xs:element>'
            else:
                types += f'<xs:simpleType name="{name}">{restriction}</xs:simpleType>'
                fields += f'<xs:element name="{name.lower()}" type="t:{name}" minOccurs="0"/>'
        content = f'<xs:sequence>{fields}</xs:sequence></xs:complexType>'
        if self.wild or self.embedded:
            return f'{types}<xs:element name="item"><xs:complexType>{content}</xs:element>'
        return f'{types}<xs:complexType name="Item">{content}<xs:element name="item" type="t:Item"/>'

    def schema(self, value):
        tns = value('namespace', self.tns)
        comment = f'<!-- {CALL} -->' if self.rng.random() < 0.3 else ''
        prefix = '' if self.wild else f' xmlns:t="{tns}"'
        return (f'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"{prefix} targetNamespace="{tns}" elementFormDefault="qualified">'
                f'{self.references(value)}{comment}<xs:annotation><xs:documentation>{escape(text(self.rng))}</xs:documentation></xs:annotation>'
                f'{self.body(value)}</xs:schema>')

    def judge(self, mon, module, schemas, context):
        """Everything has the values of the document."""
        found = [s for s in schemas if 'item' in s.elements]
        if not mon.check(len(found) == 1, 'schema', f'{len(found)} schemas', **context):
            return
        schema = found[0]
        mon.check(same_uri(schema.targetNamespace, self.tns), 'namespace', f'{schema.targetNamespace!r} instead of {self.tns!r}', **context)
        for name, kind, ns in self.files:
            wanted = self.tns if kind == 'include' else ns
            number = [f for f, *_ in self.files].index(name)
            parts = [s for s in getattr(schema, kind + 's') if f'file{number}' in s.elements]
            if mon.check(len(parts) == 1, 'reference', f'{kind} of {name!r}: {len(parts)} schemas', **context):
                mon.check(same_uri(parts[0].targetNamespace, wanted), 'namespace', f'{parts[0].targetNamespace!r} instead of {wanted!r}', **context)
                mon.check(str(parts[0].location).endswith(name), 'location', f'{parts[0].location!r} instead of {name!r}', **context)
        item = module.Item
        for name, kind, x, inline in self.simples:
            valid = [x[1]] if kind == 'pattern' else x
            for v in valid:
                mon.event('accepted')
                try:
                    instance = again = item(**{name.lower(): v})
                    if not self.wild:
                        again = item.parsexml(instance.xml('item', namespace=schema.targetNamespace, elementFormDefault='qualified'))
                except ValueError as e:
                    mon.violation('refused', f'{v!r} is refused: {e!r}', **context)
                    continue
                mon.check(getattr(instance, name.lower()) == v, 'value', f'{getattr(instance, name.lower())!r} instead of {v!r}', **context)
                if '\r' not in v:
                    mon.check(getattr(again, name.lower()) == v, 'value', f'{getattr(again, name.lower())!r} instead of {v!r}', **context)
            for v in (valid[0] + 'x', 'x' + valid[-1], valid[0][:-1], valid[0].replace('\\', '\\\\'), '1337', 'canary', 'file0'):
                if v in valid:
                    continue
                mon.event('refused')
                try:
                    item(**{name.lower(): v})
                except ValueError:
                    continue
                mon.violation('accepted', f'{v!r} is accepted but {valid} was described', **context)
        if self.wild:
            return  # lxml can not write the namespace.
        mon.event('again')
        self.compare(mon, py2xsd.generate_xsd(schema), context)

    def compare(self, mon, root, context):
        """A schema element says the same as the document."""
        root = etree.fromstring(etree.tostring(root))
        mon.check(root.get('targetNamespace') == self.tns, 'again-namespace', f'{root.get("targetNamespace")!r}', **context)
        x = '{http://www.w3.org/2001/XMLSchema}'
        for name, kind, wanted, inline in self.simples:
            if inline:
                place = root.find(f'.//{x}element[@name="{name.lower()}"]')
            else:
                place = next(s for s in root.findall(f'{x}simpleType') if s.get('name').lower() == name.lower())
            found = [e.get('value') for e in place.iter(x + kind)]
            wanted = [wanted[0]] if kind == 'pattern' else wanted
            mon.check(found == wanted, 'again-' + kind, f'{found} instead of {wanted}', **context)


class Scratch:
    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='vf-c21-'))
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def make(mon, document, generate, directory, context):
    """The code for the hostile text and for harmless text."""
    codes = []
    sources = []
    state = document.rng.getstate()
    hostile = None
    for harmless in (False, True):
        document.rng.setstate(state)
        value = Values(document.rng)
        value.hostile = not harmless
        source = document.source(value)
        if directory:
            write_files(document, source, value, directory)
        sources.append(source.encode())
        hostile = hostile or value.used
        with Execution(mon, context):
            codes.append(generate(source.encode()))
    return sources[0], codes, hostile


def write_files(document, source, value, directory):
    """The files a schema refers to have the namespaces which are mentioned."""
    root = etree.fromstring(source.encode())
    for schema in root.iter('{http://www.w3.org/2001/XMLSchema}schema'):
        own = schema.get('targetNamespace')
        for i, (name, kind, _) in enumerate(document.files):
            reference, = [e for e in schema if isinstance(e.tag, str) and e.get('schemaLocation') == name]
            ns = attribute(reference.get('namespace', own))
            with open(os.path.join(directory, name), 'wb') as f:
                f.write((f'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="{ns}">'
                         f'<xs:element name="file{i}" type="xs:string"/></xs:schema>').encode())


def from_xsd(mon, rng, index):
    with Scratch() as directory:
        document = Document(rng, directory)
        document.source = document.schema
        context = {}
        source, (code, harmless), used = make(mon, document, lambda source: xsd2py.generate_code_from_xsd(source, cwd=directory), directory, context)
    comparable(mon, used)
    mon.event('xsd')
    mon.event('files', len(document.files))
    mon.sample(xsd=source)
    context.update(xsd=source, code=code)
    if not imported(mon, code, harmless, context):
        return
    with Execution(mon, context):
        use(mon, document, code, context)


def use(mon, document, code, context, judge=None):
    try:
        with xsdgen.Module(code) as module:
            mon.event('imported')
            schemas = [x for x in vars(module).values() if isinstance(x, xsd.Schema)]
            schemas = [x for i, x in enumerate(schemas) if not any(x is y for y in schemas[:i])]
            document.judge(mon, module, schemas, context)
            if judge:
                judge(module)
    except (SyntaxError, NameError, ImportError, TypeError, AttributeError) as e:
        mon.violation('import', f'Generated code can not be used: {e!r}', **context)


# --- WSDL --------------------------------------------------------------------
PRINTABLE = ''.join(c for c in map(chr, range(0x80)) if not c.isprintable()) + ' $\x85\u2028\u202e\xa0\ufeff[]'


class Description(Document):
    def __init__(self, rng, directory=None):
        super().__init__(rng, directory)
        self.service_tns = namespace(rng)
        self.env = rng.choice([svc.S11, svc.S12])
        self.port, self.service = 'Port', 'Svc'
        path = text(rng, without=PRINTABLE + '<>?#;')
        self.address = rng.choice(['http://example.com/', 'https://h.example:81/a?b=', 'http://h/#', '${scheme}://${host}/']) + path.strip() + '.'
        self.actions = [text(rng).translate({ord(c): None for c in ' \t\r\n'}) or 'a' for _ in range(rng.randint(1, 3))]
        self.styles = [rng.choice([None, 'document', 'rpc']) for _ in self.actions]
        self.part = text(rng, without='\t\r\n')

    def source(self, value):
        tns = value('namespace', self.service_tns)
        schema = self.schema(value)
        parts = [f'<w:definitions xmlns:w="{c08.W}" xmlns:s="{c08.BINDING[self.env]}" xmlns:d="{tns}" '
                 f'xmlns:e="{attribute(etree.fromstring(schema).get("targetNamespace"))}" targetNamespace="{tns}">'
                 f'<w:documentation>{escape(text(self.rng))}</w:documentation><w:types>{schema}</w:types>']
        part = value('part', self.part)
        abstract = bound = ''
        for i, action in enumerate(self.actions):
            for direction in ('In', 'Out'):
                parts.append(f'<w:message name="M{direction}{i}"><w:part name="{part}" element="e:item"/></w:message>')
            abstract += f'<w:operation name="op{i}"><w:input message="d:MIn{i}"/><w:output message="d:MOut{i}"/></w:operation>'
            style = f' style="{self.styles[i]}"' if self.styles[i] else ''
            bound += (f'<w:operation name="op{i}"><s:operation soapAction="{value("action", action)}"{style}/>'
                      '<w:input><s:body use="literal"/></w:input><w:output><s:body use="literal"/></w:output></w:operation>')
        parts.append(f'<w:portType name="PT">{abstract}</w:portType><w:binding name="B" type="d:PT"><s:binding transport="{c08.TRANSPORT}"/>{bound}</w:binding>'
                     f'<w:service name="{self.service}"><w:port name="{self.port}" binding="d:B">'
                     f'<s:address location="{value("address", self.address)}"/></w:port></w:service></w:definitions>')
        return ''.join(parts)


def from_wsdl(mon, rng, index):
    target = rng.choice(['client', 'server'])
    with Scratch() as directory:
        document = Description(rng, directory)
        context = {}
        source, (code, harmless), used = make(mon, document, lambda source: wsdl2py.generate_code_from_wsdl(source, target, cwd=directory), directory, context)
    comparable(mon, used)
    mon.event('wsdl')
    mon.event('files', len(document.files))
    context.update(wsdl=source, code=code, target=target)
    if not imported(mon, code, harmless, context):
        return

    def judge(module):
        service = module.Port_SERVICE
        mon.check(service.targetNamespace == document.service_tns, 'service-namespace', f'{service.targetNamespace!r} instead of {document.service_tns!r}', **context)
        found = [m.soapAction for m in service.methods]
        mon.check(found == document.actions, 'actions', f'{found} instead of {document.actions}', **context)
        found = {x for m in service.methods for x in (m.inputPartName, m.outputPartName)}
        mon.check(found == {document.part}, 'parts', f'{found} instead of {document.part!r}', **context)
        if target == 'client' and '${' not in document.address:
            location = module.PortServiceStub().location
            mon.check(location == document.address, 'address', f'{location!r} instead of {document.address!r}', **context)
        root = etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(service)))
        mon.check(root.get('targetNamespace') == document.service_tns, 'again-namespace', f'{root.get("targetNamespace")!r}', **context)
        found = [e.get('soapAction') for e in root.iter(f'{{{c08.BINDING[document.env]}}}operation')]
        mon.check(found == document.actions, 'again-actions', f'{found} instead of {document.actions}', **context)
        path = document.address.split('://')[1].partition('/')[2]
        found = root.find(f'.//{{{c08.BINDING[document.env]}}}address').get('location')
        mon.check(found == '${scheme}://${host}/' + path, 'again-address', f'{found!r} instead of {document.address!r}', **context)
        document.compare(mon, root.find(f'{{{c08.W}}}types/{{http://www.w3.org/2001/XMLSchema}}schema'), context)

    with Execution(mon, context):
        use(mon, document, code, context, judge)


# --- Names and numbers -------------------------------------------------------
def names(mon, rng, index):
    """Hostile text where only names and numbers are allowed: the document is refused or nothing of it is executed."""
    v = lambda: attribute(text(rng, 3))
    n = lambda: attribute(rng.choice([text(rng, 2), '5', '1.5', f'5\n{CALL}', f'5; {CALL}', f'5 if {CALL} else 6', f'0.5\n{CALL}', f'1.5 if {CALL} else 2', f'.5, {CALL}', f'-1.5 * {CALL}', CALL, '-1', '1_0', '\u0663', ' 7 ']))
    x = lambda ordinary: v() if rng.random() < 0.25 else ordinary
    facets = ''.join(f'<xs:{f} value="{v() if f in ("pattern", "whiteSpace") else n() if rng.random() < 0.6 else 5}"/>' for f in rng.sample(
        ['pattern', 'minInclusive', 'maxExclusive', 'totalDigits', 'fractionDigits', 'length', 'minLength', 'maxLength', 'whiteSpace'], rng.randint(1, 3)))
    occurs = rng.choice(['', '', f' minOccurs="{n()}"', f' maxOccurs="{n()}"', f' nillable="{v()}"', f' default="{v()}"', f' fixed="{v()}"', f' form="{v()}"'])
    use_ = rng.choice(['', f' use="{v()}"', f' default="{v()}"'])
    sg = f' substitutionGroup="{v()}"' if rng.random() < 0.2 else ''
    schema = (f'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:t" targetNamespace="urn:t" elementFormDefault="{x("qualified")}">'
              f'<xs:simpleType name="{x("Code")}"><xs:restriction base="{x("xs:int")}">{facets}</xs:restriction></xs:simpleType>'
              f'<xs:attributeGroup name="{x("Group")}"><xs:attribute name="{x("one")}" type="{x("xs:int")}"/></xs:attributeGroup>'
              f'<xs:complexType name="{x("Base")}"><xs:sequence><xs:element name="{x("first")}" type="xs:string"{occurs}/>'
              f'<xs:element name="second"><xs:simpleType><xs:restriction base="{x("xs:int")}">{facets}</xs:restriction></xs:simpleType></xs:element>'
              f'</xs:sequence><xs:attribute name="{x("att")}" type="xs:string"{use_}/></xs:complexType>'
              f'<xs:complexType name="Derived"><xs:complexContent><xs:extension base="{x("t:Base")}"><xs:sequence><xs:element name="more" type="{x("t:Code")}"/>'
              f'</xs:sequence></xs:extension></xs:complexContent></xs:complexType>'
              f'<xs:element name="{x("item")}" type="{x("t:Base")}"{sg}/></xs:schema>')
    context = {}
    if rng.random() < 0.5:
        source = schema.encode()
        generate = lambda: xsd2py.generate_code_from_xsd(source)
    else:
        header = f'<s:header message="d:{x("MIn")}" part="{x("p")}" use="literal"/>' if rng.random() < 0.5 else ''
        source = (f'<w:definitions xmlns:w="{c08.W}" xmlns:s="{c08.BINDING[svc.S11]}" xmlns:d="urn:d" xmlns:e="urn:t" targetNamespace="urn:d">'
                  f'<w:types>{schema}</w:types><w:message name="MIn"><w:part name="{x("p")}" element="e:{x("item")}"/></w:message>'
                  f'<w:message name="MOut"><w:part name="{x("q")}" element="e:{x("item")}"/></w:message>'
                  f'<w:portType name="PT"><w:operation name="op"><w:input message="d:MIn"/><w:output message="d:MOut"/></w:operation></w:portType>'
                  f'<w:binding name="B" type="d:PT"><s:binding transport="{c08.TRANSPORT}"/><w:operation name="op"><s:operation soapAction="a" style="{x("document")}"/>'
                  f'<w:input>{header}<s:body use="literal"/></w:input><w:output><s:body use="literal"/></w:output></w:operation></w:binding>'
                  f'<w:service name="{x("Svc")}"><w:port name="{x("Port")}" binding="d:B"><s:address location="http://h/{v()}"/></w:port></w:service></w:definitions>').encode()
        for ordinary in ('op', 'MIn', 'MOut', 'PT', 'B'):
            if rng.random() < 0.15:
                other = v()
                if not set(':') & set(other):
                    source = source.replace(f'"{ordinary}"'.encode(), f'"{other}"'.encode()).replace(f'"d:{ordinary}"'.encode(), f'"d:{other}"'.encode())
        generate = lambda: wsdl2py.generate_code_from_wsdl(source, rng.choice(['client', 'server']))
    mon.event('names')
    mon.judged(source)
    context = {'source': source}
    code = None
    with Execution(mon, context):
        try:
            code = generate()
        except Exception:
            mon.event('names-refused')
        if code is None:
            return
        context['code'] = code
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore', SyntaxWarning)
                tree = ast.parse(code)
        except (SyntaxError, ValueError) as e:
            mon.violation('syntax', f'Generated code is not valid: {e!r}', **context)
            return
        called = [n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id == 'vf_canary']
        mon.check(not called, 'executable', 'Generated code contains the call', **context)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore', SyntaxWarning)
            try:
                with xsdgen.Module(code):
                    mon.event('names-imported')
            except Exception:
                mon.event('names-not-imported')


def groups(tier):
    n = 40 if tier == 'thorough' else 2
    return [Group('xsd', from_xsd, 700 * n), Group('wsdl', from_wsdl, 500 * n), Group('names', names, 500 * n)]
