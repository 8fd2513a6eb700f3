"""C18: untrusted documents cannot make the library read files or open connections."""
import io
import os
import resource
import traceback

from lxml import etree

from soapfish import py2xsd, soap, wsdl2py, xsd, xsd2py
from soapfish.core import SOAPError, SOAPRequest
from soapfish.middlewares import ExceptionToSoapFault
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
from vf import gen, loop, svc, watch
from vf.core import Group

PROPERTY = 'C18'
RULE = ('A case puts attacks into documents for one of the places where the library parses documents; inotify on canary files, a listener and '
        'audit hooks watch the process, everything which comes back is searched for the content of the canaries; non-trivial and distinct by document.')
REQUIRED = {'dispatch': 1500, 'parsexml': 1000, 'envelope': 250, 'stub': 150, 'xsd2py': 200, 'wsdl2py': 200, 'schema-location': 150, 'entity': 500, 'parameter-entity': 250,
            'doctype': 250, 'xinclude': 300, 'schema-hint': 300, 'stylesheet': 300, 'bomb': 100, 'parsed': 500, 'refused': 1500, 'wsa-address': 50}
MARK = 'A1T2T3'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
LIMIT = 600 * 1024  # KiB of memory


class Attack:
    """Builds attack documents: the document is given with a mark in some text."""

    def __init__(self, rng):
        self.rng, self.canary = rng, watch.Canary.get()
        self.kinds = []

    def target(self, name=None):
        rng, c = self.rng, self.canary
        name = name or rng.choice(['canary.txt', 'canary.xml', 'canary.dtd', 'canary.xsd', 'canary.xsl'])
        path = os.path.join(c.directory, name)
        return rng.choice([
            f'file://{path}', path, name, f'./{name}', f'file:{path}', f'file://localhost{path}', f'http://127.0.0.1:{c.port}/{name}', f'http://127.0.0.1:{c.port}/{name}',
            f'http://vf-canary.invalid/{name}', f'https://127.0.0.1:{c.port}/{name}', f'ftp://127.0.0.1:{c.port}/{name}', f'//127.0.0.1:{c.port}/{name}',
            f'file://{path}#x', f'../{os.path.basename(c.directory)}/{name}', f'{path}?x',
        ])

    def doctype(self, root='x'):
        """(document type declaration, replacement of the mark)."""
        rng = self.rng
        kind = rng.choice(['entity', 'entity', 'entity', 'parameter-entity', 'parameter-entity', 'doctype', 'doctype-entity', 'unparsed', 'nested', 'attribute-default'])
        self.kinds.append(kind if kind in ('entity', 'parameter-entity') else 'doctype')
        t = self.target
        how = lambda target: rng.choice([f'SYSTEM "{target}"', f"SYSTEM '{target}'", f'PUBLIC "-//X//Y//EN" "{target}"'])
        if kind == 'entity':
            return f'<!DOCTYPE {root} [<!ENTITY leak {how(t())}>]>', rng.choice(['&leak;', 'a&leak;b', '&leak;&leak;'])
        if kind == 'nested':
            return f'<!DOCTYPE {root} [<!ENTITY a {how(t())}><!ENTITY leak "x&a;y">]>', '&leak;'
        if kind == 'parameter-entity':
            body = rng.choice([
                f'<!ENTITY % p {how(t("canary.dtd"))}>%p;',
                f'<!ENTITY % p {how(t("canary.dtd"))}><!ENTITY % q "<!ENTITY leak \'x\'>">%q;%p;',
                f'<!ENTITY leak "here"><!ENTITY % p {how(t("canary.txt"))}> %p;',
            ])
            return f'<!DOCTYPE {root} [{body}]>', rng.choice(['&leak;', 'text'])
        if kind == 'doctype':
            return f'<!DOCTYPE {root} {how(t("canary.dtd"))}>', rng.choice(['&leak;', 'text'])
        if kind == 'doctype-entity':
            return f'<!DOCTYPE {root} {how(t("canary.dtd"))} [<!ENTITY own {how(t())}>]>', rng.choice(['&leak;', '&own;'])
        if kind == 'unparsed':
            return f'<!DOCTYPE {root} [<!NOTATION n {how(t())}><!ENTITY leak {how(t())} NDATA n>]>', rng.choice(['&leak;', 'leak'])
        return f'<!DOCTYPE {root} [<!ENTITY e {how(t())}><!ATTLIST {root} x CDATA "&e;">]>', 'text'

    def inline(self):
        """Attributes of an element and content which point somewhere."""
        rng, t = self.rng, self.target
        kind = rng.choice(['xinclude', 'schema-hint', 'schema-hint', 'links', 'base'])
        self.kinds.append(kind)
        if kind == 'xinclude':
            href = t().partition('#')[0]
            parse = rng.choice(['', ' parse="text"', ' parse="xml"'])
            return '', f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{href}"{parse}><xi:fallback>none</xi:fallback></xi:include>'
        if kind == 'schema-hint':
            location = t('canary.xsd')
            return rng.choice([
                f' xmlns:hint="{XSI}" hint:schemaLocation="urn:canary {location} urn:one {location} urn:two {t()}"',
                f' xmlns:hint="{XSI}" hint:noNamespaceSchemaLocation="{location}"',
            ]), ''
        if kind == 'links':
            return f' xmlns:xl="http://www.w3.org/1999/xlink" xl:href="{t()}" xl:type="simple" xl:actuate="onLoad"', ''
        return f' xml:base="{t()}"', ''

    def apply(self, text, attributes=True):
        """Put attacks into a document (a str without declaration), returns bytes."""
        rng = self.rng
        prolog = ''
        roll = rng.random()
        replacement = 'text'
        if roll < 0.6:
            prolog, replacement = self.doctype(rng.choice(['x', 'Envelope', text[1:40].split('>')[0].split(' ')[0].split('/')[0] or 'x']))
        if rng.random() < 0.25:
            self.kinds.append('stylesheet')
            prolog = f'<?xml-stylesheet type="text/xsl" href="{self.target("canary.xsl")}"?>' + prolog
        if roll > 0.6 or rng.random() < 0.3:
            extra, content = self.inline()
            if content:
                replacement = content
            elif attributes:
                # Into a random start tag.
                ends = [i for i, c in enumerate(text) if c == '>' and text[i - 1] not in '/?-' and '<' in text[:i] and text[text.rindex('<', 0, i) + 1] not in '/?!']
                if ends:
                    i = rng.choice(ends)
                    text = text[:i] + extra + text[i:]
        text = prolog + text.replace(MARK, replacement)
        encoding = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'declared'])
        if encoding == 'utf-16':
            return text.encode('utf-16', 'replace')
        if encoding == 'iso-8859-1':
            return b'<?xml version="1.0" encoding="iso-8859-1" standalone="no"?>' + text.encode('iso-8859-1', 'xmlcharrefreplace')
        return (b'<?xml version="1.0" encoding="utf-8"?>' if encoding == 'declared' else b'') + text.encode('utf-8', 'replace')


def watched(mon, kind, content, func, attack, allowed=()):
    """Run func, nothing may happen to the canaries; returns its result or exception."""
    canary = attack.canary
    canary.touched()
    here = os.getcwd()
    os.chdir(canary.directory)
    before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    try:
        def select(event, args):
            if event in watch.NETWORK:
                return not any(str(x) in repr(args) for x in allowed)
            return event in watch.PROCESSES or (event == 'open' and 'canary' in str(args[0]))

        with watch.Recorder(select) as recorder:
            try:
                result, error = func(), None
            except Exception as e:
                result, error = None, e
    finally:
        os.chdir(here)
    names, connections = canary.touched()
    used = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before
    context = {'document': content, 'kinds': attack.kinds}
    mon.event(kind)
    for k in attack.kinds:
        mon.event(k)
    mon.event('parsed' if error is None else 'refused')
    mon.judged(kind, content)
    mon.check(not names, f'{kind}-file', f'The document makes the library read files: {names}', **context)
    mon.check(not connections, f'{kind}-connection', f'The document makes the library open connections: {connections}', **context)
    mon.check(not recorder.events, f'{kind}-event', f'The document makes the library do {recorder.events}', **context)
    mon.check(used < LIMIT, f'{kind}-memory', f'Handling the document takes {used // 1024} MiB', **context)
    trace = '' if error is None else ''.join(traceback.format_exception_only(error))
    mon.check(canary.token not in trace, f'{kind}-leak-error', f'The content of a file is in the error: {trace}', **context)
    return result, error


def leaks(mon, kind, attack, content, *values):
    for value in values:
        data = value if isinstance(value, bytes) else value.encode() if isinstance(value, str) else dump(value).encode('utf8', 'replace')
        for encoding in ('utf-8', 'utf-16-le'):
            mon.check(attack.canary.token.encode(encoding) not in data, f'{kind}-leak', f'The content of a file is in {data!r}', document=content)
        mon.check(len(data) < 20_000_000 + 20 * len(content), f'{kind}-expansion', f'{len(content)} bytes become {len(data)}', document=content)


def dump(value, depth=0):
    if isinstance(value, xsd.ComplexType):
        names = [f._name for f in value._meta.all]
        return str({n: dump(getattr(value, n), depth + 1) for n in names}) if depth < 30 else '...'
    if isinstance(value, list):
        return str([dump(v, depth + 1) for v in value])
    return str(value)


BOMBS = {
    'laughs': '<!DOCTYPE x [<!ENTITY a0 "ha">%s]>' % ''.join(f'<!ENTITY a{i} "{f"&a{i - 1};" * 10}">' for i in range(1, 13)),
    'quadratic': '<!DOCTYPE x [<!ENTITY a12 "%s">]>' % ('x' * 60000),
    'recursive': '<!DOCTYPE x [<!ENTITY a "&a12;"><!ENTITY a12 "&a;">]>',
    'parameter': '<!DOCTYPE x [<!ENTITY %% p0 "<!ENTITY a12 \'x\'>">%s%%p9;]>' % ''.join(f'<!ENTITY % p{i} "{f"%p{i - 1};" * 10}">' for i in range(1, 10)),
    'attribute': '<!DOCTYPE x [<!ENTITY a0 "ha">%s]>' % ''.join(f'<!ENTITY a{i} "{f"&a{i - 1};" * 10}">' for i in range(1, 13)),
}


def bomb(rng, text):
    name = rng.choice(list(BOMBS))
    replacement = '&a12;' * (2000 if name == 'quadratic' else 1)
    return (BOMBS[name] + text.replace(MARK, replacement)).encode('utf-8', 'replace')


def marked(rng, text):
    """Put the mark into a text or an attribute value of a serialized document."""
    places = [i + 1 for i, c in enumerate(text) if c == '>' and i + 1 < len(text)]
    attributes = [i + 2 for i in range(len(text) - 1) if text[i:i + 2] == '="' and 'xmlns' not in text[max(0, i - 12):i]]
    if not places:
        name = text[1:].replace('/', ' ').split()[0]
        return text.rstrip()[:-2] + f'>{MARK}</{name}>'
    i = rng.choice(attributes) if attributes and rng.random() < 0.15 else rng.choice(places)
    return text[:i] + MARK + text[i:]


def in_string(rng, service, obj):
    """Set the first string of an object to the mark, so that a document which is expanded may be valid."""
    todo = [obj]
    while todo:
        o = todo.pop()
        for field in o.type.all_fields():
            value = o.values[field.py]
            if isinstance(field.type, gen.Simple) and field.type.builtin == 'string' and not field.type.facets and value is not None and value is not gen.NIL:
                o.values[field.py] = [MARK] if field.kind == 'list' and (field.min or 0) < 2 else MARK if field.kind != 'list' else value
                if field.kind != 'list' or value is not o.values[field.py]:
                    return True
            todo += [v for v in (value if isinstance(value, list) else [value]) if isinstance(v, gen.Obj)]
    return False


def message(rng, service, op):
    """Text of a request with a mark."""
    obj = service.random_obj(rng, op.input)
    head = service.in_header(op)
    parts = service.header_parts(service.random_header(rng, head)) if head and rng.random() < 0.5 else None
    hit = in_string(rng, service, obj)
    text = gen.plain(service.envelope(service.message(obj, op.input), parts))
    return text if hit and rng.random() < 0.8 else marked(rng, text)


def environment(mon):
    canary = watch.Canary.get()
    canary.selftest()
    mon.event('selftest')


def dispatch(mon, rng, index):
    environment(mon)
    with svc.RandomService(rng, schemas=2, operations=2, options=svc.schema_options(builtins=['string', 'string', 'int', 'dateTime', 'anyURI']), wsa_=0.3) as service:
        service.behave = lambda call: (seen.append(call), service.instance(service.random_obj(rng, call.op.output), rng))[1]
        dispatcher = SOAPDispatcher(service.service, middlewares=[ExceptionToSoapFault(traceback=rng.random() < 0.5)], strict_soap_header=rng.random() < 0.6)
        app = WsgiSoapApplication(dispatcher)
        for i in range(6):
            seen = []
            attack = Attack(rng)
            op = rng.choice(service.ops)
            text = message(rng, service, op)
            if i == 5:
                content = bomb(rng, text)
                attack.kinds.append('bomb')
            elif rng.random() < 0.12:
                attack.kinds.append('wsa-address')
                text = text.replace('Envelope', 'Envelope', 1)
                address = attack.target()
                header = (f'<h:Header xmlns:h="{service.env}" xmlns:w="{svc.WSA}"><w:Action>urn:a</w:Action><w:MessageID>urn:m</w:MessageID><w:To>{address}</w:To>'
                          f'<w:ReplyTo><w:Address>{address}</w:Address></w:ReplyTo><w:FaultTo><w:Address>{attack.target()}</w:Address></w:FaultTo></h:Header>')
                i = text.index('>') + 1
                content = (text[:i] + header + text[i:]).replace(MARK, 'text').encode()
            else:
                content = attack.apply(text)
            environ = service.environ(rng, content, op.action if rng.random() < 0.8 else None)

            def send():
                if rng.random() < 0.5:
                    response = dispatcher.dispatch(SOAPRequest(environ, content))
                    return response.http_content
                environ['wsgi.input'] = io.BytesIO(content)
                return b''.join(app(environ, lambda *args: None))

            result, error = watched(mon, 'dispatch', content, send, attack)
            if not mon.check(error is None, 'raised', f'Dispatcher raises {error!r}', document=content):
                continue
            leaks(mon, 'dispatch', attack, content, result, *[c.body for c in seen], *[c.header for c in seen if c.header is not None])
            if seen:
                mon.event('handled')
            mon.sample(document=content, response=result)


def parsexml(mon, rng, index):
    environment(mon)
    options = svc.schema_options(builtins=['string', 'string', 'int', 'anyURI'])
    model = gen.random_model(rng, options)
    model.elements['root'] = model.root
    with gen.Built(model, rng) as built:
        compiled = etree.XMLSchema(py2xsd.generate_xsd(built.schema))
        for i in range(5):
            obj = gen.random_obj(rng, model.root, options)
            hit = in_string(rng, None, obj)
            text = gen.plain(gen.document(obj, 'root', model.tns, model.efd))
            if not hit:
                text = marked(rng, text)
            attack = Attack(rng)
            if i == 4:
                attack.kinds.append('bomb')
                content = bomb(rng, text)
            else:
                content = attack.apply(text)
            schema = rng.choice([None, None, compiled, built.schema])
            source = content
            if rng.random() < 0.3 and b'<?xml version' not in content and content[:2] not in (b'\xff\xfe', b'\xfe\xff'):
                source = content.decode()
            result, error = watched(mon, 'parsexml', content, lambda: built.root.parsexml(source, schema=schema), attack)
            if error is None:
                leaks(mon, 'parsexml', attack, content, result, result.xml('again') if good(result) else b'')
            else:
                mon.check(isinstance(error, (ValueError, SyntaxError, etree.LxmlError)), 'parsexml-error', f'Parsing raises {error!r}', document=content)


def good(result):
    try:
        result.xml('again')
    except (ValueError, ArithmeticError, TypeError, AttributeError):  # Without a schema empty items of lists become None.
        return False
    return True


def envelope(mon, rng, index):
    environment(mon)
    with svc.RandomService(rng, schemas=1, operations=1) as service:
        for _ in range(4):
            attack = Attack(rng)
            content = attack.apply(message(rng, service, service.ops[0]))
            result, error = watched(mon, 'envelope', content, lambda: service.soap.Envelope.parsexml(content), attack)
            if error is None:
                leaks(mon, 'envelope', attack, content, result)


def stub(mon, rng, index):
    environment(mon)
    server = loop.Server.get()
    with svc.RandomService(rng, schemas=1, operations=2, class_inputs=False) as service:
        client = soap.Stub(service=service.service, location=f'http://{server.host}/soap')
        for _ in range(3):
            attack = Attack(rng)
            op = rng.choice(service.ops)
            out = service.random_obj(rng, op.output)
            in_string(rng, service, out)
            if rng.random() < 0.3:
                env = service.env
                text = (f'<e:Envelope xmlns:e="{env}"><e:Body><e:Fault>' + (f'<faultcode>x</faultcode><faultstring>{MARK}</faultstring>' if env == svc.S11 else
                        f'<e:Code><e:Value>e:Sender</e:Value></e:Code><e:Reason><e:Text xml:lang="en">{MARK}</e:Text></e:Reason>') + '</e:Fault></e:Body></e:Envelope>')
            else:
                text = gen.plain(service.envelope(service.message(out, op.output, op.output_tag)))
                text = text if MARK in text else marked(rng, text)
            content = attack.apply(text)
            headers = {'Content-Type': svc.CONTENT_TYPES[service.env]}
            if rng.random() < 0.3:
                headers['Link'] = f'<{attack.target()}>; rel="describedby"'
            server.answer = lambda exchange: (200, headers, content)
            parameter = service.instance(service.random_obj(rng, op.input), rng)
            result, error = watched(mon, 'stub', content, lambda: client.call(op.name, parameter), attack, allowed=(server.host.split(':')[1],))
            if isinstance(error, SOAPError):
                leaks(mon, 'stub', attack, content, str(error))
            elif error is None:
                leaks(mon, 'stub', attack, content, result.soap_body)


XSD = '''<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:t" targetNamespace="urn:t">
<xs:annotation><xs:documentation>A1T2T3</xs:documentation></xs:annotation>
<xs:simpleType name="Code"><xs:restriction base="xs:string"><xs:enumeration value="A"/><xs:pattern value="[A-Z]"/></xs:restriction></xs:simpleType>
<xs:complexType name="Person"><xs:sequence><xs:element name="name" type="xs:string"/><xs:element name="code" type="t:Code"/></xs:sequence></xs:complexType>
<xs:element name="person" type="t:Person"/></xs:schema>'''
WSDL = '''<wsdl:definitions xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:tns="urn:s" xmlns:t="urn:t" targetNamespace="urn:s">
<wsdl:types>%s</wsdl:types><wsdl:message name="In"><wsdl:part name="body" element="t:person"/></wsdl:message><wsdl:message name="Out"><wsdl:part name="body" element="t:person"/></wsdl:message>
<wsdl:portType name="P"><wsdl:operation name="op"><wsdl:input message="tns:In"/><wsdl:output message="tns:Out"/></wsdl:operation></wsdl:portType>
<wsdl:binding name="B" type="tns:P"><soap:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/><wsdl:operation name="op"><soap:operation soapAction="urn:op" style="document"/>
<wsdl:input><soap:body use="literal"/></wsdl:input><wsdl:output><soap:body use="literal"/></wsdl:output></wsdl:operation></wsdl:binding>
<wsdl:service name="S"><wsdl:documentation>A1T2T3</wsdl:documentation><wsdl:port name="P" binding="tns:B"><soap:address location="http://x.example/"/></wsdl:port></wsdl:service></wsdl:definitions>'''


def generators(mon, rng, index):
    """Documents for the code generators, their own imports are followed on purpose and not part of the attack."""
    environment(mon)
    for _ in range(3):
        for kind, text in (('xsd2py', XSD), ('wsdl2py', WSDL % XSD)):
            attack = Attack(rng)
            if rng.random() < 0.4:
                text = marked(rng, text.replace(MARK, ''))
            content = attack.apply(text)
            if rng.random() < 0.15:
                content = bomb(rng, text)
                attack.kinds.append('bomb')
            if kind == 'xsd2py':
                func = lambda: xsd2py.generate_code_from_xsd(content)
            else:
                func = lambda: wsdl2py.generate_code_from_wsdl(content, rng.choice(['client', 'server']))
            result, error = watched(mon, kind, content, func, attack)
            if error is None:
                leaks(mon, kind, attack, content, result)


def locations(mon, rng, index):
    """Schemas of a service are found by their location, whatever is there."""
    environment(mon)
    canary = watch.Canary.get()
    attack = Attack(rng)
    where = [attack.target('canary.xsd').partition('#')[0], attack.target('canary.txt').partition('#')[0]]
    leaf = type('Leaf', (xsd.ComplexType,), {'value': xsd.Element(xsd.Int)})
    inner = xsd.Schema('urn:inner', location=where[0], complexTypes=[leaf], elements={'leaf': xsd.Element(leaf)})
    other = type('Other', (xsd.ComplexType,), {'value': xsd.Element(xsd.String)})
    same = xsd.Schema('urn:outer', location=where[1] if where[1] != where[0] else 'same.xsd', complexTypes=[other], elements={'other': xsd.Element(other)})
    root = type('Root', (xsd.ComplexType,), {'name': xsd.Element(xsd.String)})
    outer = xsd.Schema('urn:outer', complexTypes=[root], elements={'root': xsd.Element(root)}, imports=[inner], includes=[same], location=rng.choice([None, attack.target('canary.xml')]))
    listed = [outer] if rng.random() < 0.5 else [outer, xsd.Schema('urn:third', location=rng.choice([None, where[0]]))]
    attack.kinds.append('schema-location')

    def validate():
        validator = py2xsd.schema_validator(listed)
        results = []
        for text in ('<i:leaf xmlns:i="urn:inner"><value>1</value></i:leaf>', '<i:leaf xmlns:i="urn:inner"><value>x</value></i:leaf>',
                     '<o:other xmlns:o="urn:outer"><value>x</value></o:other>', '<c:canary xmlns:c="urn:canary">x</c:canary>'):
            try:
                validator(etree.fromstring(text))
                results.append(True)
            except etree.DocumentInvalid:
                results.append(False)
        return results

    result, error = watched(mon, 'schema-location', repr(where), validate, attack)
    if len(listed) == 1 or listed[1].location is None:
        mon.check(error is None, 'location-refused', f'Schemas at {where} are refused: {error!r}')
        mon.check(result == [True, False, True, False], 'location-result', f'Validation with schemas at {where} gives {result}')
    # A reference to a schema which is not there must not be looked for.
    attack = Attack(rng)
    broken = xsd.Schema('urn:broken', complexTypes=[], elements={'e': xsd.Element(xsd.String)})
    location = attack.target('canary.xsd')

    class Missing:
        targetNamespace = 'urn:canary'
        imports, includes = [], []

    Missing.location = location
    broken.imports.append(Missing)
    attack.kinds.append('schema-location')
    real = py2xsd.generate_xsd
    assert real is py2xsd.generate_xsd
    watched(mon, 'missing-schema', location, lambda: py2xsd.schema_validator([broken]), attack)


def groups(tier):
    n = 20 if tier == 'thorough' else 1
    return [Group('dispatch', dispatch, 350 * n), Group('parsexml', parsexml, 300 * n), Group('envelope', envelope, 80 * n), Group('stub', stub, 80 * n),
            Group('generators', generators, 100 * n), Group('locations', locations, 150 * n)]
