"""C16: the served WSDL and XSD documents are complete and reachable."""
import io
import re
import urllib.parse

from lxml import etree

from soapfish import py2wsdl, py2xsd, soap, soap11, soap12, xsd
from soapfish.core import SOAPRequest
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
from vf import gen, mutate, svc
from vf.core import Group

PROPERTY = 'C16'
RULE = ('A case crawls the documents of a service with GET requests; every document is compared with the generated one, the schemas put '
        'together from what was served judge messages of the service; non-trivial and distinct by document and request.')
REQUIRED = {'wsdl': 1800, 'xsd': 1500, 'embedded': 1500, 'depth2': 300, 'repeated': 800, 'unknown': 1500, 'forwarded': 300, 'fixed-address': 100, 'message': 800, 'refused': 300,
            'given': 200, 'shared': 100, 'cycle': 50, 'hostile-text': 150}
X = '{http://www.w3.org/2001/XMLSchema}'
W = '{http://schemas.xmlsoap.org/wsdl/}'
LOCATIONS = ['a+b{}.xsd', '100%41{}.xsd', 't#{}.xsd', 'typ\xfc{}.xsd', 'a;b&c=d{}', "it's {}.xsd", '../up/{}.xsd', '/abs/{}.xsd', 'xsd{}', '$host/{}.xsd', '{}']
HOSTS = ['soap.example', 'localhost:8080', 'SOAP.Example:80', 'Example.COM.', 'example:443', '[::1]:80', 'a&b', 'h"<x>\'', '\xfcml.example', '$host', '${{scheme}}', '\\1', '\\g<0>', 'x' * 300]
HOSTS = [h.replace('{{', '{').replace('}}', '}') for h in HOSTS]
TEXTS = ['${scheme}://${host}', '$host', '$$', '$', '${other}', '%s', "${host}'", 'schemaLocation', '{host}', '&amp;', '\\1']
blank = etree.XMLParser(remove_blank_text=True)


def canonical(element, decode=False):
    """Canonical form with plain locations (decode: as they were before they were rewritten)."""
    element = etree.fromstring(etree.tostring(element), blank)
    for e in element.iter(X + 'import', X + 'include'):
        location = e.get('schemaLocation')
        if location is not None and decode:
            e.set('schemaLocation', target(location) or '(none)')
    return etree.tostring(element, method='c14n')


def target(location):
    """The name of the schema a rewritten location asks for, None if it is something else."""
    parts = urllib.parse.urlsplit(urllib.parse.urljoin('http://h/soap?wsdl', location))
    try:
        query = urllib.parse.parse_qs(parts.query, keep_blank_values=True, strict_parsing=True)
    except ValueError:
        return None
    if parts.path != '/soap' or parts.netloc != 'h' or parts.fragment or list(query) != ['xsd'] or len(query['xsd']) != 1:
        return None
    return query['xsd'][0]


class Site:
    """A client of a deployed service."""

    def __init__(self, mon, rng, service, **kwargs):
        self.mon, self.rng, self.service = mon, rng, service
        self.dispatcher = SOAPDispatcher(service, **kwargs)
        self.wsgi = WsgiSoapApplication(self.dispatcher)
        self.seen = {}

    def get(self, query, host='soap.example', scheme='http', forwarded=None, key=None):
        """(status, content type, bytes) of a GET request."""
        environ = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': query, 'PATH_INFO': '/soap', 'SCRIPT_NAME': '', 'SERVER_NAME': 'localhost', 'SERVER_PORT': '80',
                   'HTTP_HOST': host, 'wsgi.url_scheme': scheme, 'wsgi.input': io.BytesIO(b''), 'CONTENT_LENGTH': ''}
        if forwarded:
            environ[key] = forwarded
        if self.rng.random() < 0.5:
            response = self.dispatcher.dispatch(SOAPRequest(environ, b''))
            headers = {k.lower(): v for k, v in response.http_headers.items()}
            content = response.http_content
            result = response.http_status_code, headers.get('content-type'), content.encode() if isinstance(content, str) else content
        else:
            seen = []
            content = b''.join(self.wsgi(environ, lambda status, headers: seen.append((int(status[:3]), {k.lower(): v for k, v in headers}))))
            result = seen[0][0], seen[0][1].get('content-type'), content
        request = (query, host, scheme, forwarded, key)
        if request in self.seen:
            self.mon.event('repeated')
            self.mon.check(self.seen[request] == result, 'history', f'{query} gives another document after other requests', first=self.seen[request][2], second=result[2])
        self.seen[request] = result
        return result

    def wsdl(self, generated=None):
        """Get and judge the WSDL, returns its root element."""
        mon, rng = self.mon, self.rng
        query = rng.choice(['wsdl', 'wsdl', 'wsdl=', 'singleWsdl', 'x=1&wsdl', 'wsdl=1&xsd=x', 'singleWsdl=&y', 'wsdl&x=1;y=2', 'a;b&wsdl'])
        scheme, forwarded, key = rng.choice(['http', 'https']), None, None
        if rng.random() < 0.35:
            forwarded, key = rng.choice(['http', 'https', 'https', 'HTTPS', 'ws', 'wss', 'h2c', 'soap.tcp']), rng.choice(['HTTP_X_FORWARDED_PROTO', 'HTTP_X_FORWARDED_PROTO', 'X_FORWARDED_PROTO'])
            mon.event('forwarded')
        host = rng.choice(HOSTS)
        mon.event('wsdl')
        status, content_type, content = self.get(query, host, scheme, forwarded, key)
        context = {'query': query, 'host': host, 'content': content, 'service': self.service.__dict__}
        mon.check(status == 200 and content_type.split(';')[0] == 'text/xml', 'wsdl-answer', f'{query} gives {status} {content_type}', **context)
        try:
            root = etree.fromstring(content)
        except etree.XMLSyntaxError as e:
            mon.violation('wsdl-xml', f'Served WSDL is not well-formed: {e}', **context)
            return None
        expected = py2wsdl.generate_wsdl(self.service)
        address = next(e for e in expected.iter() if etree.QName(e).localname == 'address')
        values = {'${scheme}': forwarded or scheme, '${host}': host}
        location = re.sub(r'\$\{(scheme|host)\}', lambda match: values[match.group()], self.service.location)
        if location == self.service.location:
            mon.event('fixed-address')
        address.set('location', location)
        mon.judged(content)
        one, two = canonical(root, True), canonical(expected)
        mon.check(one == two, 'wsdl-content', 'Served WSDL is not the one of the service', difference=first_difference(one, two), **context)
        return root

    def crawl(self, root):
        """Follow all locations, returns the documents by location and the roots of the embedded schemas."""
        mon = self.mon
        embedded = root.findall(f'{W}types/{X}schema')
        mon.event('embedded', len(embedded))
        if not mon.check(len(embedded) == len(self.service.schemas), 'embedded', f'{len(embedded)} schemas in the WSDL instead of {len(self.service.schemas)}'):
            return None
        documents, queue = {}, [(e, s, 0) for e, s in zip(embedded, self.service.schemas)]
        while queue:
            element, schema, depth = queue.pop()
            for tag, children in (('import', schema.imports), ('include', schema.includes)):
                found = element.findall(X + tag)
                if not mon.check(len(found) == len(children), 'references', f'{len(found)} elements {tag} instead of {len(children)}', schema=etree.tostring(element)):
                    return None
                for e, child in zip(found, children):
                    location = e.get('schemaLocation')
                    context = {'location': location, 'schema': child.location, 'document': etree.tostring(element)}
                    if not mon.check(location is not None, 'no-location', f'{tag} of {child} has no location', **context):
                        continue
                    parts = urllib.parse.urlsplit(urllib.parse.urljoin('http://soap.example/soap?wsdl', location))
                    if not mon.check((parts.netloc, parts.path) == ('soap.example', '/soap'), 'elsewhere', f'Location {location!r} leads away from the service', **context):
                        continue
                    new = location not in documents
                    status, content_type, content = self.get(parts.query)
                    context['content'] = content
                    mon.event('xsd')
                    if not mon.check(status == 200 and content_type.split(';')[0] == 'text/xml', 'unreachable', f'{location} gives {status} {content_type}', **context):
                        continue
                    document = etree.fromstring(content)
                    mon.judged(content, location)
                    if tag == 'import':
                        mon.check(e.get('namespace') == document.get('targetNamespace'), 'namespace', f'Import of {e.get("namespace")} leads to {document.get("targetNamespace")}', **context)
                    one, two = canonical(document, True), canonical(py2xsd.generate_xsd(child))
                    mon.check(one == two, 'xsd-content', 'Served XSD is not the generated one', difference=first_difference(one, two), **context)
                    documents[location] = content
                    if depth:
                        mon.event('depth2')
                    if new:
                        queue.append((document, child, depth + 1))
                    else:
                        mon.event('shared')
        return documents, embedded

    def unknown(self, known):
        mon, rng = self.mon, self.rng
        for name in rng.sample(['nothing.xsd', 'xsd', 'None', '../types1.xsd', 'types', '/etc/passwd', '0'] + [x + 'x' for x in known] + [x[:-1] for x in known] + [x.upper() for x in known], 3):
            if name in known or not name:
                continue
            mon.event('unknown')
            mon.judged('unknown', name)
            status, _, content = self.get('xsd=' + urllib.parse.quote(name, safe=''))
            mon.check(status == 404, 'unknown', f'XSD {name!r} which is not there gives {status}', content=content)


def first_difference(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, n - 80):n + 80] + b'   <>   ' + b[max(0, n - 80):n + 80]


class Resolver(etree.Resolver):
    def __init__(self, documents):
        super().__init__()
        self.documents = documents

    def resolve(self, url, id, context):
        # libxml2 escapes what is not allowed in URLs.
        name = urllib.parse.unquote('?' + url.partition('?')[2])
        for location, content in self.documents.items():
            if urllib.parse.unquote(location) == name:
                return self.resolve_string(content, context)
        raise ValueError(f'{url} is not among {list(self.documents)}')


def compile_schema(documents, embedded):
    parser = etree.XMLParser()
    parser.resolvers.add(Resolver(documents))
    root = etree.fromstring(etree.tostring(embedded), parser)
    return etree.XMLSchema(root)


def service(mon, rng, index):
    with svc.RandomService(rng, headers=0.3, locations=[x.replace('{}', '{0}') for x in LOCATIONS]) as service:
        service.behave = lambda call: service.instance(service.random_obj(rng, call.op.output), rng)
        site = Site(mon, rng, service.service)
        known = set()
        for _ in range(3):
            root = site.wsdl()
            if root is None:
                return
            crawled = site.crawl(root)
            if crawled is None:
                return
            documents, embedded = crawled
            known = {target(x) for x in documents}
            site.unknown(known)
            op = rng.choice(service.ops)
            if rng.random() < 0.5:
                content = service.spell(rng, service.envelope(service.message(service.random_obj(rng, op.input), op.input)))
                site.dispatcher.dispatch(SOAPRequest(service.environ(rng, content, op.action), content))
        expected = {b.schema.location for b in service.built[1:]} - {s.location for s in service.service.schemas}
        mon.check(known == expected, 'incomplete', f'Crawling reaches {known} instead of {expected}', relations=service.relations)
        # The documents have to be sufficient to validate messages.
        schemas = {}
        for op in service.ops[:2]:
            owner = service.owner[op.input]
            where = where_is(service, owner)
            if where is None:
                continue
            if where not in schemas:
                try:
                    schemas[where] = compile_schema(documents, embedded[where])
                except etree.XMLSchemaParseError as e:
                    mon.violation('not-a-schema', f'Served documents are no schema: {e}', documents=documents, service=service)
                    return
            document = service.message(service.random_obj(rng, op.input), op.input)
            mon.event('message')
            content = gen.plain(document)
            mon.judged('message', content)
            mon.check(schemas[where].validate(etree.fromstring(content)), 'message', f'Served schemas refuse a message: {schemas[where].error_log.last_error}', sent=content, service=service)
            for kind, changed in mutate.mutations(rng, document):
                if kind in ('unknown', 'missing', 'lexical'):
                    mon.event('refused')
                    content = gen.plain(changed)
                    mon.check(not schemas[where].validate(etree.fromstring(content)), 'message-accepted', f'Served schemas accept a message with {kind}', sent=content, service=service)
                    break
        mon.sample(service=service, wsdl=etree.tostring(root))


def where_is(service, model):
    """Index of the embedded schema which contains or references a model."""
    b = next(b for b in service.built if b.model is model)

    def contains(schema, seen=()):
        return schema is b.schema or any(contains(x, seen + (schema,)) for x in schema.imports + schema.includes if x not in seen)

    return next((i for i, s in enumerate(service.service.schemas) if contains(s)), None)


def graph(mon, rng, index):
    """Deep graphs of schemas which share and reference each other."""
    n = rng.randint(2, 9)
    locations = rng.sample(LOCATIONS + ['a/{}.xsd', 'b/{}.xsd', 'http://x.example/{}.xsd'], n)
    spaces = ['urn:n%d' % i for i in range(max(2, n // 2))]
    schemas = []
    for i in range(n):
        hostile = rng.sample(TEXTS, rng.randint(1, 3))
        leaf = type(f'Leaf{i}', (xsd.String,), {'enumeration': hostile})
        cls = type(f'Type{i}', (xsd.ComplexType,), {'value': xsd.Element(leaf), 'INDICATOR': xsd.Sequence})
        ns = rng.choice(spaces)
        nested = rng.sample(schemas, min(len(schemas), rng.choice([0, 1, 1, 2, 3])))
        schema = xsd.Schema(ns, location=locations[i].format(i), elementFormDefault=rng.choice(list(efds())), simpleTypes=[leaf], complexTypes=[cls],
                            elements={f'element{i}': xsd.Element(cls)}, imports=[s for s in nested if s.targetNamespace != ns],
                            includes=[s for s in nested if s.targetNamespace == ns])
        cls.SCHEMA = schema
        schemas.append(schema)
        mon.event('hostile-text')
    roots = [schemas[-1]] + rng.sample(schemas[:-1], rng.choice([0, 0, 1, 2]) if n > 2 else 0)
    if rng.random() < 0.3 and len(schemas) > 2:
        # Schemas which import each other.
        a, b = rng.sample(schemas[:-1], 2)
        for x, y in ((a, b), (b, a)):
            (x.includes if x.targetNamespace == y.targetNamespace else x.imports).append(y)
        mon.event('cycle')
    element = next(iter(schemas[-1].elements))
    method = xsd.Method(function=lambda request, value: value, soapAction='urn:a', input=element, output=element, operationName='op')
    service = soap.Service(name='Graph', targetNamespace=rng.choice(['urn:service', spaces[0]]), location=rng.choice(['${scheme}://${host}/s', 'http://${host}:80/$', 'urn:x']),
                           schemas=roots, version=rng.choice([soap11, soap12]), methods=[method])
    reachable, todo = [], list(roots)
    while todo:
        s = todo.pop()
        for x in s.imports + s.includes:
            if x not in reachable:
                reachable.append(x)
                todo.append(x)
    site = Site(mon, rng, service)
    for _ in range(2):
        root = site.wsdl()
        if root is None:
            return
        crawled = site.crawl(root)
        if crawled is None:
            return
    known = {target(x) for x in crawled[0]}
    mon.check(known == {x.location for x in reachable}, 'incomplete', f'Crawling reaches {known}, there are {[x.location for x in reachable]}')
    site.unknown(known)


def efds():
    return [xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED]


def given(mon, rng, index):
    """Documents supplied by the user."""
    with svc.RandomService(rng, schemas=2, operations=1, headers=0) as service:
        encoding = rng.choice(['utf-8', 'iso-8859-1', 'utf-16', 'us-ascii'])
        address = rng.choice(['http://fixed.example/', '${scheme}://${host}/x', 'urn:\xe4' if encoding != 'us-ascii' else 'urn:a'])
        if encoding == 'utf-16' and '$' in address:
            address = 'urn:$$'
        text = rng.choice(['$host $$ ${x} \xe9 %s {host}', 'plain', '${scheme}', "it's \xfc"])
        if encoding == 'us-ascii':
            text = text.encode('ascii', 'replace').decode()
        quote, equal = rng.choice('"\''), rng.choice(['=', '=', ' = ', '= ', ' =', '\n=\t'])
        document = (f'<?xml version="1.0" encoding="{encoding}"?>\n<!-- {text} -->\n<definitions xmlns="http://schemas.xmlsoap.org/wsdl/"><documentation>{text}</documentation>'
                    f'<service  name="x"><port><a:address\txmlns:a="urn:a" location{equal}{quote}ADDRESS{quote}\n/></port></service></definitions>\n')
        data = document.replace('ADDRESS', address).encode(encoding)
        kwargs, xsds = {'wsdl': data}, None
        if rng.random() < 0.5:
            xsds = {'a.xsd': b'<x/>', 'b/\xfc&.xsd': ('\xff\x00<y>' if rng.random() < 0.5 else '<?xml version="1.0" encoding="iso-8859-1"?><z>$host</z>').encode('latin1')}
            if rng.random() < 0.5:
                xsds['xsd'] = b'<!-- of no name --><x/>'
            kwargs['xsds'] = dict(xsds)
        site = Site(mon, rng, service.service, **kwargs)
        for _ in range(3):
            mon.event('given')
            host, scheme = rng.choice(HOSTS[:6]), rng.choice(['http', 'https'])
            status, content_type, content = site.get(rng.choice(['wsdl', 'singleWsdl']), host, scheme)
            expected = document.replace('ADDRESS', address.replace('${scheme}', scheme).replace('${host}', host)).encode(encoding)
            mon.judged(content, data)
            mon.check((status, content) == (200, expected), 'given-wsdl', f'Given WSDL is served as {content!r}', given=data)
        if xsds is not None:
            for name, value in xsds.items():
                status, content_type, content = site.get('xsd=' + urllib.parse.quote(name))
                mon.check((status, content) == (200, value), 'given-xsd', f'Given XSD {name} is served as {status} {content!r}', given=value)
            if 'xsd' in xsds:
                # A request of no name is one of the document called "xsd".
                status, content_type, content = site.get(rng.choice(['xsd', 'xsd=']))
                mon.event('no-name')
                mon.check((status, content) == (200, xsds['xsd']), 'given-xsd', f'The XSD of no name is served as {status} {content!r}')
            site.unknown(set(xsds))


def groups(tier):
    n = 20 if tier == 'thorough' else 2
    return [Group('service', service, 600 * n), Group('graph', graph, 450 * n), Group('given', given, 150 * n)]
