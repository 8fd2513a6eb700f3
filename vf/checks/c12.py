"""C12: any request whatsoever gets a well-formed answer."""
import copy
import io
import re
import xml.parsers.expat
from urllib.parse import parse_qs, quote

from lxml import etree

from soapfish.core import SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import WsgiSoapApplication
from vf import gen, svc
from vf.checks import c10
from vf.core import Group, Violation

PROPERTY = 'C12'
RULE = ('A case sends a stream of hostile, mutated and odd requests to one dispatcher with valid requests in between and checks '
        'every response; non-trivial and distinct by method, query and body.')
REQUIRED = {'post': 5000, 'fault': 3000, 'success': 200, 'malformed': 1500, 'wsdl': 300, 'xsd': 200, '404': 200, '400': 400, 'interleaved': 500,
            'bytes-mutated': 1500, 'tree-mutated': 1500, 'raw': 1000, 'wsgi': 500, 'bomb': 50, 'deep': 50, 'odd-length': 200}

BOMB = ('<!DOCTYPE x [<!ENTITY a "%s">' + ''.join(f'<!ENTITY {b} "{("&" + a + ";") * 10}">' for a, b in zip('abcdefgh', 'bcdefghi')) + ']>')


def raw_bodies(rng, service, valid):
    env = service.env
    other = svc.S12 if env == svc.S11 else svc.S11
    e = lambda inner, ns=env, extra='': f'<e:Envelope xmlns:e="{ns}"{extra}>{inner}</e:Envelope>'.encode()
    deep = rng.choice([100, 250, 260, 2000, 20000])
    tag = rng.choice(service.ops).input
    tns = service.owner[tag].tns.replace('&', '&amp;')
    items = [
        b'', b' ', b'\x00', b'x', b'<', b'<a', b'<a/>', b'<a></b>', b'{"json": 1}', b'a=b&c=d', b'\xff\xfe', b'\xef\xbb\xbf', b'<?xml version="1.0"?>',
        b'<?xml version="1.0" encoding="nonsense"?><a/>', b'<?xml version="2.0"?><a/>', b'<!-- c -->', b'<a/><b/>', b'&amp;', b'<a>&undefined;</a>',
        e(''), e('<e:Body/>'), e('<e:Header/>'), e('<e:Body></e:Body><e:Body></e:Body>'), e('<e:Body>text</e:Body>'), e('<e:Body><!-- c --></e:Body>'),
        e('<e:Body><?pi x?></e:Body>'), e('<e:Body><a/></e:Body>'), e('<e:Body><a xmlns="urn:x"/></e:Body>'), e('<e:Body><e:Fault/></e:Body>'),
        e('<e:Body><e:Fault><faultcode>x</faultcode><faultstring>y</faultstring></e:Fault></e:Body>'), e('<e:Body><e:Envelope/></e:Body>'),
        e('<e:Body><e:Body/></e:Body>'), e('<e:Body><message/></e:Body>'), e('<e:Body><e:message/></e:Body>'), e('<e:Header/><e:Body><e:Header/></e:Body>'),
        e('<e:Body xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="true"/>'),
        e('<e:Header xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="true"/><e:Body><a/></e:Body>'),
        e('<e:Header xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="maybe"/><e:Body><a/></e:Body>'),
        e('<e:Header/><e:Header/><e:Body><a/></e:Body>'), e('<e:Body><a/><b/></e:Body>'), e('<e:Body><a/></e:Body><e:Header/>'),
        e('<Body><a/></Body>'), e('<e:body><a/></e:body>'), e('<e:Body><a/></e:Body>', other), e('<e:Body><a/></e:Body>', 'urn:none'),
        e('<!-- c --><?pi x?><e:Body><!-- c --><a/></e:Body><!-- c -->'), b'<Envelope><Body><a/></Body></Envelope>',
        e(f'<e:Body><{tag} xmlns="{tns}"/></e:Body>'), e(f'<e:Body><{tag}/></e:Body>'), e(f'<e:Body>text<{tag} xmlns="{tns}"/>text</e:Body>'),
        e(f'<e:Body><{tag} xmlns="{tns}" xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="true"/></e:Body>'),
        e(f'<e:Body><{tag} xmlns="{tns}" xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:type="i:x"/></e:Body>'),
        e(f'<e:Body><{tag} xmlns="{tns}" xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:schemaLocation="urn:x nowhere.xsd"/></e:Body>'),
        e(f'<e:Header>text</e:Header><e:Body><{tag} xmlns="{tns}"/></e:Body>'),
        e(f'<e:Header><!-- c --><?pi?></e:Header><e:Body><{tag} xmlns="{tns}"/></e:Body>'),
        e(f'<e:Header><x/></e:Header><e:Body><{tag} xmlns="{tns}"/></e:Body>'),
        e(f'<e:Header><w:x xmlns:w="{svc.WSA}"/></e:Header><e:Body><{tag} xmlns="{tns}"/></e:Body>'),
        e('<e:Body>' + '<a>' * deep + '</a>' * deep + '</e:Body>'), e('<e:Body>' + '<a>' * deep + '</e:Body>'),
        e(f'<e:Body><{tag} xmlns="{tns}">' + '<a>' * deep + '</a>' * deep + f'</{tag}></e:Body>'),
        (BOMB % 'a').encode() + e(f'<e:Body><{tag} xmlns="{tns}">&i;</{tag}></e:Body>'),
        (BOMB % 'a').encode() + e(f'<e:Body><{tag} xmlns="{tns}" a="&i;"/></e:Body>'),
        (BOMB % '<a/>').encode() + e('<e:Body>&i;</e:Body>'), (BOMB % '&i;').encode() + e('<e:Body>&a;</e:Body>'),
        b'<!DOCTYPE a SYSTEM "nowhere.dtd">' + e('<e:Body><a/></e:Body>'), b'<!DOCTYPE a [<!ENTITY x SYSTEM "nowhere">]>' + e('<e:Body>&x;</e:Body>'),
        b'<!DOCTYPE a [<!ENTITY % x SYSTEM "nowhere">%x;]>' + e('<e:Body><a/></e:Body>'), b'<!DOCTYPE a [<!ATTLIST a b CDATA "c">]>' + e('<e:Body><a/></e:Body>'),
        e('<e:Body><a ' + ' '.join(f'a{i}="{i}"' for i in range(2000)) + '/></e:Body>'), e('<e:Body><a a="1" a="2"/></e:Body>'),
        e('<e:Body><a>' + 'x' * 200000 + '</a></e:Body>'), e('<e:Body><u:a/></e:Body>'), e('<e:Body><a xmlns:x=""/></e:Body>'),
        e('<e:Body><a>&#0;</a></e:Body>'), e('<e:Body><a>&#xffffffff;</a></e:Body>'), e('<e:Body><a>\x01</a></e:Body>'), e('<e:Body><a><![CDATA[x</a></e:Body>'),
        e('<e:Body><a><!-- -- --></a></e:Body>'), e('<e:Body/>', extra=' xmlns:e2="urn:x" e2:encodingStyle="x" mustUnderstand="1"'),
        valid.decode('utf-8').encode('utf-16-le'), valid.decode('utf-8').encode('utf-32'), b'\n' + valid, valid + b'x', valid + valid, b'x' + valid,
        b'<?xml version="1.0" encoding="utf-16"?>' + valid, b'<?xml version="1.0" encoding="ascii"?>' + valid.replace(b'>', b'>\xe9', 3),
        b' <?xml version="1.0"?>' + valid, valid.replace(b'Envelope', b'Umschlag'), valid.replace(b'Body', b'Leib'), valid[::-1], valid.upper(), valid.lower(),
    ]
    return rng.choice(items)


TOKENS = [b'<', b'>', b'/', b'&', b'"', b"'", b'<!--', b'-->', b'<![CDATA[', b']]>', b'<?', b'?>', b'&amp;', b'&#0;', b'&#x10FFFF;', b'\x00', b'\xff', b'xmlns=""',
          b' xmlns="urn:x"', b'<a/>', b'</a>', b'\xed\xa0\x80', b'<!DOCTYPE a>', b'%', b':', b'=', b'true', b'-', b'9' * 40]


def mutate_bytes(rng, content):
    data = bytearray(content)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        if not data:
            break
        at = rng.randrange(len(data))
        kind = rng.randrange(7)
        if kind == 0:
            del data[at:]
        elif kind == 1:
            data[at] = rng.randrange(256)
        elif kind == 2:
            del data[at:at + rng.choice([1, 1, 5, 50])]
        elif kind == 3:
            data[at:at] = rng.choice(TOKENS)
        elif kind == 4:
            end = min(len(data), at + rng.choice([1, 10, 100]))
            data[at:at] = data[at:end]
        elif kind == 5:
            data[at] ^= 1 << rng.randrange(8)
        else:
            other = rng.randrange(len(data))
            low, high = sorted((at, other))
            data[low:low] = data[high:high + 20]
    return bytes(data)


def mutate_tree(rng, content):
    root = etree.fromstring(content)
    for _ in range(rng.choice([1, 1, 2, 4])):
        elements = list(root.iter('*'))
        upper = [x for x in elements if x.tag.startswith('{http://schemas.xmlsoap') or x.tag.startswith('{http://www.w3.org/2003')]
        e = rng.choice(elements if rng.random() < 0.5 else upper or elements)
        parent = e.getparent()
        kind = rng.randrange(13)
        if kind == 0 and parent is not None:
            parent.remove(e)
        elif kind == 1 and parent is not None:
            parent.insert(parent.index(e) + rng.randint(0, 1), copy.deepcopy(e))
        elif kind == 2 and parent is not None:
            root.append(e) if rng.random() < 0.5 else root.insert(0, e)
        elif kind == 3:
            e.tag = rng.choice(['x', '{urn:x}y', etree.QName(e).localname, '{urn:x}' + etree.QName(e).localname, '{%s}Fault' % svc.S11, '{%s}Body' % svc.S12,
                                '{%s}Header' % svc.S11, '{%s}Envelope' % svc.S12, rng.choice(elements).tag])
        elif kind == 4:
            e.text = rng.choice(['', 'text', ' ', '\u2028', '9' * 400, 'nil', 'NaN', '2016-99-99', '\ufffd'])
        elif kind == 5:
            e.set(rng.choice(['x', '{urn:x}y', '{%s}nil' % gen.XSI, '{%s}type' % gen.XSI, '{%s}mustUnderstand' % svc.S11, 'id', '{%s}schemaLocation' % gen.XSI]),
                  rng.choice(['', '1', 'true', 'false', 'x', 'urn:x y.xsd', 'xs:string']))
        elif kind == 6:
            e.insert(rng.randint(0, len(e)), rng.choice([etree.Comment('c'), etree.ProcessingInstruction('pi', 'x'), etree.Element('x'), etree.Element('{urn:x}y')]))
        elif kind == 7:
            del e[:]
        elif kind == 8:
            e.attrib.clear()
        elif kind == 9:
            wrapper = etree.Element(e.tag)
            if parent is not None:
                parent.replace(e, wrapper)
                wrapper.append(e)
        elif kind == 10:
            children = list(e)
            rng.shuffle(children)
            e[:] = children
        elif kind == 11:
            e.tail = rng.choice(['tail', ' ', '\n'])
        elif parent is not None:
            other = rng.choice(elements)
            if other is not root and e not in other.iterancestors() and other is not e and e not in list(other.iter()):
                e.append(other)
    return etree.tostring(root)


def expat_accepts(content):
    declared = re.match(rb'''\s*<\?xml[^>]*?encoding\s*=\s*["']([^"']*)''', content)
    if declared and declared.group(1).lower() not in (b'utf-8', b'utf-16', b'iso-8859-1', b'us-ascii'):
        # Expat knows just these, Python adds others as if they had one byte per character.
        return None
    parser = xml.parsers.expat.ParserCreate()
    try:
        parser.Parse(content, True)
    except xml.parsers.expat.ExpatError as e:
        # Anything else (e.g. unknown encodings, entities which grow too big) is a matter of taste.
        return e.code not in (2, 3, 4, 5, 7, 8, 9, 11, 14, 20) or content[:2] in (b'\xff\xfe', b'\xfe\xff')
    except (ValueError, LookupError):
        return None
    return True


def random_query(rng, service):
    names = [s.location for b in service.built for s in [b.schema] if s.location] + ['', 'xsd', 'nothing', 'types1', '../x', '%00', 'a&b', '\u20ac', 'http://x/']
    name = rng.choice(names)
    if rng.random() < 0.3 and names[:-9]:
        return 'xsd=' + quote(rng.choice(names[:-9]), safe=rng.choice(['', '/']))
    return rng.choice([
        '', 'wsdl', 'wsdl=', 'wsdl=1', 'singleWsdl', 'WSDL', 'wsdl&xsd=x', 'x=1&wsdl', 'xsd', 'xsd=', 'xsd=' + quote(name), 'xsd=' + quote(name) + '&xsd=b', 'xsd=%', 'xsd=%ff',
        'xsd=%zz', '&&&', '=', 'a=b', ';', '%', 'wsdl;xsd', 'xsd=' + 'x' * 5000, 'a=' + '&a=' * 500, 'wsdl#x', 'xsd=' + name.replace('&', '') , '\x00', 'xsd=\ud800', 'wsd', 'xsdl',
    ])


HEADERS = {
    'HTTP_SOAPACTION': ['', '""', '"', '\'x\'', 'urn:none', '"' * 50, '\xff', '\u20ac', 'a' * 10000, '\r\nX: y', '{0}%s'],
    'CONTENT_TYPE': ['', 'text/plain', 'application/soap+xml', 'application/soap+xml; action', 'application/soap+xml; action=', 'application/soap+xml; action="',
                     'application/soap+xml;;;', 'application/soap+xml; action="\\"', ';', '\xff', 'multipart/related; boundary=x', 'application/soap+xml; action="a"; action="b"',
                     'text/xml; charset=utf-16', 'text/xml; charset=none', 'application/x-www-form-urlencoded'],
    'HTTP_HOST': ['', 'x"y', '<x>', 'a&b', '$host', '${scheme}', '\x00', '\u20ac', 'x' * 3000, '\\1', '\\g<0>', '[::1]:80'],
    'HTTP_X_FORWARDED_PROTO': ['', 'https', 'https, http', '"<&', '$host', '\x01', '\\1'],
    'wsgi.url_scheme': ['http', 'https', ''], 'ACTION': ['x', ''], 'SOAPACTION': ['x', '"'], 'REQUEST_URI': ['/x'],
}


class Input(io.BytesIO):
    """The body of a request on a connection which stays open: reading more than was announced would block."""

    def read(self, size=-1):
        if size is None or size < 0:
            raise Violation('unlimited-read', 'The body is read up to the end of the connection')
        return super().read(size)


class Stream:
    def __init__(self, mon, rng, service, dispatcher):
        self.mon, self.rng, self.service, self.dispatcher = mon, rng, service, dispatcher
        self.app = WsgiSoapApplication(dispatcher)

    def send(self, environ, content):
        """Returns (status, headers, content) of a request which is served directly or with WSGI."""
        if 'vf.length' in environ or self.rng.random() < 0.3 and environ.get('REQUEST_METHOD', '').isupper() and not any('\ud800' <= c <= '\udfff' for v in environ.values() if isinstance(v, str) for c in v):
            return self.send_wsgi(environ, content)
        response = self.dispatcher.dispatch(SOAPRequest(environ, content))
        if not isinstance(response, SOAPResponse):
            raise Violation('response', f'{response!r} is not a response')
        data = response.http_content
        self.mon.check(isinstance(data, (bytes, str)), 'content', f'Content is {data!r}')
        return response.http_status_code, dict(response.http_headers), data.encode() if isinstance(data, str) else data

    def send_wsgi(self, environ, content):
        self.mon.event('wsgi')
        environ = {**environ, 'wsgi.input': Input(content), 'CONTENT_LENGTH': environ.get('vf.length', str(len(content)))}
        if environ['CONTENT_LENGTH'] is None:
            del environ['CONTENT_LENGTH']
        seen = []

        def start_response(status, headers, exc_info=None):
            seen.append((status, headers))

        body = self.app(environ, start_response)
        data = b''.join(body)
        status, headers = seen[0]
        self.mon.check(len(seen) == 1 and re.fullmatch(r'\d{3} [ -~]+', status), 'status-line', f'Status line {status!r}')
        self.mon.check(all(isinstance(k, str) and isinstance(v, str) for k, v in headers), 'header-types', f'Headers {headers!r}')
        length = dict((k.lower(), v) for k, v in headers).get('content-length')
        self.mon.check(length in (None, str(len(data))), 'length', f'Response announces {length} bytes and sends {len(data)}')
        return int(status[:3]), dict(headers), data

    def hostile(self, content, kind, action=None, **extra):
        """A POST request which may be anything."""
        mon, rng, service = self.mon, self.rng, self.service
        environ = service.environ(rng, content, action, **extra)
        for name in rng.sample(list(HEADERS), rng.choice([0, 0, 0, 1, 2])):
            environ[name] = rng.choice(HEADERS[name])
        if rng.random() < 0.05:
            for name in rng.sample(['CONTENT_TYPE', 'QUERY_STRING', 'HTTP_HOST', 'PATH_INFO', 'wsgi.url_scheme'], 2):
                environ.pop(name, None)
            environ.setdefault('wsgi.url_scheme', 'http')
        if rng.random() < 0.04 and all(k in environ for k in ('CONTENT_TYPE', 'wsgi.url_scheme')):
            # Lengths which are none, or not that of the body.
            length = rng.choice([None, '', 'abc', '-1', '-0', '1.5', '0x10', '12, 12', '5 5', '0', str(len(content) - 1), str(len(content) // 2), str(len(content) + 7), '9' * 7])
            environ['vf.length'] = length
            content, whole = content[:int(length)] if length and length.isdigit() else b'', content
            mon.event('odd-length')
        else:
            whole = content
        service.calls.clear()
        service.behave = lambda call: service.instance(service.random_obj(rng, call.op.output), rng)
        context = {'request': content, 'environ': {k: v for k, v in environ.items() if k.isupper()}, 'service': service}
        mon.event('post')
        mon.event(kind)
        mon.judged('POST', environ.get('CONTENT_TYPE'), environ.get('HTTP_SOAPACTION'), content)
        status, headers, data = self.send(environ, whole)
        context['response'] = data
        if not well_formed(mon, service, status, headers, data, context):
            return
        reply = svc.Reply(service.env, data)
        calls = service.calls
        accepted = expat_accepts(content)
        if accepted is False:
            mon.event('malformed')
            mon.check(not calls and reply.fault is not None, 'malformed-handled', 'A document which is not well-formed is handled', **context)
        if reply.fault is not None:
            mon.event('fault')
            mon.check(not calls, 'fault-after-call', 'Fault although a handler was called', **context)
        else:
            mon.event('success')
            mon.check(len(calls) == 1, 'calls', f'{len(calls)} calls of handlers for one success', **context)
            self.judge_success(content, environ, context)

    def judge_success(self, content, environ, context):
        """A request which reached a handler has to name its operation."""
        service, mon = self.service, self.mon
        if not service.calls:
            return
        op = service.calls[0].op
        root = etree.fromstring(content)
        bodies = [c for c in root.iterchildren('*') if etree.QName(c).localname == 'Body']
        names = [etree.QName(c).localname for b in bodies for c in b.iterchildren('*')]
        wanted = {op.input, *service.members(op.input)} if not op.input_class else set(names)
        mon.check(set(names) & wanted, 'unnamed-operation', f'{op} called for a body of {names}', **context)

    def valid(self):
        """The next valid request works."""
        op = self.rng.choice(self.service.ops)
        self.mon.event('interleaved')
        c10.exchange(self.mon, self.rng, self.service, self.dispatcher, op, 'action')

    def other(self):
        """Requests for documents, and those which are for nothing."""
        mon, rng, service = self.mon, self.rng, self.service
        method = rng.choice(['GET'] * 6 + ['get', 'PUT', 'DELETE', 'HEAD', 'OPTIONS', 'PATCH', 'TRACE', '', 'post', 'Post', 'PROPFIND', None])
        query = random_query(rng, service)
        environ = service.environ(rng, b'', None, method=method, query=query)
        for name in rng.sample(list(HEADERS), rng.choice([0, 1, 2])):
            environ[name] = rng.choice(HEADERS[name])
        if method is None:
            del environ['REQUEST_METHOD']
        if rng.random() < 0.05:
            del environ['QUERY_STRING']
            query = ''
        content = rng.choice([b'', b'x', b'<a/>'])
        service.calls.clear()
        context = {'method': method, 'query': query, 'environ': {k: v for k, v in environ.items() if k.isupper()}}
        status, headers, data = self.send(environ, content)
        context['response'] = data
        mon.judged(method, query, environ.get('HTTP_HOST'), environ.get('HTTP_X_FORWARDED_PROTO'))
        mon.check(not service.calls, 'called', 'Handler called without POST', **context)
        content_type = {k.lower(): v for k, v in headers.items()}.get('content-type', '')
        keys = parse_qs(query, keep_blank_values=True)
        if method == 'GET' and ('wsdl' in keys or 'singleWsdl' in keys):
            mon.event('wsdl')
            self.xml(status, content_type, data, '{http://schemas.xmlsoap.org/wsdl/}definitions', context)
        elif method == 'GET' and 'xsd' in keys:
            known = {b.schema.location for b in service.built if b.schema.location and not any(b.schema is s for s in service.schemas)}
            if keys['xsd'][0] in known:
                mon.event('xsd')
                self.xml(status, content_type, data, '{http://www.w3.org/2001/XMLSchema}schema', context)
            elif not any(b.schema.location == keys['xsd'][0] for b in service.built):
                mon.event('404')
                mon.check(status == 404 and content_type == 'text/plain', 'not-found', f'Status {status}, {content_type} for an unknown XSD', **context)
        else:
            mon.event('400')
            mon.check(status == 400 and content_type == 'text/plain', 'bad-request', f'Status {status}, {content_type} for a bad request', **context)

    def xml(self, status, content_type, data, tag, context):
        self.mon.check(status == 200 and content_type == 'text/xml', 'document-status', f'Status {status}, {content_type}', **context)
        try:
            root = etree.fromstring(data)
        except etree.XMLSyntaxError as e:
            self.mon.violation('document-malformed', f'Served document is not well-formed: {e}', **context)
            return
        self.mon.check(root.tag == tag, 'document', f'Served document is {root.tag}', **context)


def well_formed(mon, service, status, headers, data, context):
    content_type = {k.lower(): v for k, v in headers.items()}.get('content-type', '')
    try:
        reply = svc.Reply(service.env, data)
    except etree.XMLSyntaxError as e:
        mon.violation('reply-malformed', f'Reply is not well-formed: {e}', **context)
        return False
    if not mon.check(reply.ok, 'reply', 'Reply is no envelope of this SOAP version with one body element', **context):
        return False
    if reply.fault is not None:
        try:
            reply.code(), reply.parts()
        except ValueError as e:
            mon.violation('fault-structure', f'Malformed fault: {e}', **context)
    expected = 200 if reply.fault is None else 500
    mon.check(status == expected, 'status', f'Status {status} instead of {expected}', **context)
    mon.check(content_type.split(';')[0] == svc.CONTENT_TYPES[service.env], 'content-type', f'Content type {content_type!r}', **context)
    return True


def stream(mon, rng, index):
    with svc.RandomService(rng, schemas=3, operations=3, options=svc.schema_options(odd=0.05)) as service:
        dispatcher = c10.open_dispatcher(service, **rng.choice([{}, {}, {'strict_soap_header': False}]))
        s = Stream(mon, rng, service, dispatcher)
        for _ in range(14):
            op = rng.choice(service.ops)
            obj = service.random_obj(rng, op.input)
            parts = service.header_parts(service.random_header(rng, service.in_header(op))) if service.in_header(op) and rng.random() < 0.5 else None
            envelope = service.envelope(service.message(obj, op.input), parts)
            action = op.action if rng.random() < 0.4 else None
            roll = rng.random()
            if roll < 0.3:
                content = service.spell(rng, envelope, rng.choice([svc.STRICT, gen.PLAIN, gen.WILD]))
                s.hostile(mutate_bytes(rng, content), 'bytes-mutated', action)
            elif roll < 0.6:
                content = service.spell(rng, envelope, gen.PLAIN, 'utf-8')
                s.hostile(mutate_tree(rng, content), 'tree-mutated', action)
            elif roll < 0.78:
                valid = service.spell(rng, envelope, gen.PLAIN, 'bare')
                content = raw_bodies(rng, service, valid)
                if b'ENTITY a' in content:
                    mon.event('bomb')
                if content.count(b'<a>') > 50:
                    mon.event('deep')
                s.hostile(content, 'raw', action)
            elif roll < 0.9:
                s.other()
            else:
                s.valid()
            if rng.random() < 0.2:
                s.other()


def groups(tier):
    n = 40 if tier == 'thorough' else 2
    return [Group('stream', stream, 1500 * n)]
