"""C19: WS-Addressing headers are carried, checked and correlated."""
import json
import os
import random
import re
import subprocess
import sys
import threading

from lxml import etree

from soapfish import soap, wsa, wsdl2py, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher
from vf import core, gen, loop, svc
from vf.core import Group

PROPERTY = 'C19'
RULE = ('A case sends requests with valid and invalid addressing headers to one service and reads the headers of the replies, with plain lxml; '
        'non-trivial and distinct by request document.')
REQUIRED = {'request': 1500, 'valid': 800, 'invalid': 500, 'reply': 600, 'correlated': 300, 'no-source': 60, 'custom-header': 200, 'method-header': 150, 'stub': 300,
            'fault-reply': 60, 'ids': 5000, 'used-before': 50, 'lenient': 200, 'not-enabled': 100, 'generated': 40, 'soap11': 250, 'soap12': 250}
ANONYMOUS = 'http://www.w3.org/2005/08/addressing/anonymous'
WSA = svc.WSA
NAMES = ['Action', 'MessageID', 'To', 'RelatesTo', 'ReplyTo']
URIS = ['urn:uuid:6b29fc40-ca47-1067-b31d-00dd010662da', 'http://x.example/op?a=1&b=2', 'urn:a', 'http://ex\xe4mple.org/\xfc', 'mailto:a@b.example', 'x', '../relative', '#frag',
        'http://x.example/%20%3C', 'http://[::1]:8080/a;p=1', ANONYMOUS, 'http://www.w3.org/2005/08/addressing/none', 'urn:' + 'long' * 200, "urn:it's", 'urn:x:Response', 'uuid:1', 'http://x.example/actions/', 'urn:x:Request', 'http://x.example/op/Request']
# Not the file of the code under test.
OFFICIAL = etree.XMLSchema(etree.parse(os.path.join(core.ROOT, 'vf', 'data', 'ws-addr.xsd')))


def uri(rng):
    return rng.choice(URIS) if rng.random() < 0.6 else f'urn:{rng.getrandbits(64):x}'


def escape(text):
    return text.replace('&', '&amp;').replace('<', '&lt;')


class Writer:
    """Writes header blocks in random spellings."""

    def __init__(self, rng, env):
        self.rng, self.env = rng, env
        self.prefix = rng.choice(['wsa', 'a', 'wsa10', 'ns0'])
        self.outer = rng.random() < 0.5

    def declare(self):
        return f' xmlns:{self.prefix}="{WSA}"' if self.outer else ''

    def text(self, value):
        rng = self.rng
        roll = rng.random()
        if roll < 0.1 and len(value) > 1:
            i = rng.randrange(1, len(value))
            return escape(value[:i]) + rng.choice(['<!-- c -->', '<?p i?>']) + escape(value[i:])
        if roll < 0.2:
            return f'<![CDATA[{value}]]>'
        if roll < 0.25:
            return ''.join(f'&#{ord(c)};' for c in value)
        return escape(value)

    def element(self, name, content, attributes='', nested=False):
        if self.outer or nested:
            return f'<{self.prefix}:{name}{attributes}>{content}</{self.prefix}:{name}>'
        if self.rng.random() < 0.5 and f'{self.prefix}:' not in content + attributes:
            return f'<{name} xmlns="{WSA}"{attributes}>{content}</{name}>'
        return f'<{self.prefix}:{name} xmlns:{self.prefix}="{WSA}"{attributes}>{content}</{self.prefix}:{name}>'

    def other_attributes(self):
        return self.rng.choice(['', '', '', f' xmlns:s="{self.env}" s:mustUnderstand="1"', ' xmlns:o="urn:other" o:id="7"', ' xml:lang="en"'])

    def reference(self, name, address):
        """An endpoint reference."""
        rng, p = self.rng, self.prefix
        content = f'<{p}:Address{rng.choice(["", " xmlns:o=\'urn:other\' o:x=\'1\'"])}>{self.text(address)}</{p}:Address>'
        if rng.random() < 0.3:
            content += f'<{p}:ReferenceParameters><k xmlns="urn:k">v</k></{p}:ReferenceParameters>'
        if rng.random() < 0.2:
            content += f'<{p}:Metadata/>'
        if rng.random() < 0.2:
            content += '<extra xmlns="urn:other"/>'
        space = rng.choice(['', '\n  '])
        return self.element(name, space + content + space, self.other_attributes())

    def valid(self, values):
        """The blocks of values {name: text}, with some which the library does not know."""
        rng = self.rng
        blocks = []
        for name, value in values.items():
            if name == 'ReplyTo':
                blocks.append(self.reference(name, value))
            else:
                attributes = self.other_attributes()
                if name == 'RelatesTo' and rng.random() < 0.3:
                    attributes += rng.choice([' RelationshipType="http://www.w3.org/2005/08/addressing/reply"', ' RelationshipType="urn:x"'])
                blocks.append(self.element(name, self.text(value), attributes))
        for name in ('From', 'FaultTo'):
            if rng.random() < 0.15:
                blocks.append(self.reference(name, uri(rng)))
        if rng.random() < 0.5:
            rng.shuffle(blocks)
        return blocks

    def broken(self):
        """(kind, block) which violates the schema."""
        rng, p = self.rng, self.prefix
        plain = rng.choice(['Action', 'MessageID', 'To', 'RelatesTo'])
        reference = rng.choice(['ReplyTo', 'From', 'FaultTo'])
        address = f'<{p}:Address>urn:a</{p}:Address>'
        kind = rng.choice(['child', 'attribute', 'wsa-attribute', 'no-address', 'text', 'twice', 'order', 'unknown', 'unqualified', 'address-child', 'own-extra', 'number', 'empty-reference',
                           'relation-attribute', 'uri'])
        return kind, {
            'child': lambda: self.element(plain, f'urn:a<{p}:To>urn:b</{p}:To>'),
            'attribute': lambda: self.element(plain, 'urn:a', ' id="1"'),
            'wsa-attribute': lambda: self.element(plain, 'urn:a', f' {p}:Type="x"') if self.outer else f'<{p}:To xmlns:{p}="{WSA}" {p}:Type="x">urn:a</{p}:To>',
            'no-address': lambda: self.element(reference, f'<{p}:Metadata/>'),
            'text': lambda: self.element(reference, f'text{address}'),
            'twice': lambda: self.element(reference, address + address),
            'order': lambda: self.element(reference, f'<{p}:Metadata/>{address}'),
            'unknown': lambda: self.element(rng.choice(['action', 'Reply', 'MessageId', 'Address', 'SoapAction']), 'urn:a'),
            'unqualified': lambda: self.element(reference, '<Address xmlns="">urn:a</Address>') if self.outer else f'<{p}:{reference} xmlns:{p}="{WSA}"><Address>urn:a</Address></{p}:{reference}>',
            'address-child': lambda: self.element(reference, f'<{p}:Address><x xmlns="urn:x"/></{p}:Address>'),
            'own-extra': lambda: self.element(reference, f'{address}<{p}:To>urn:a</{p}:To>'),
            'number': lambda: self.element('RetryAfter', rng.choice(['soon', '-1', ''])),
            'empty-reference': lambda: self.element(reference, ''),
            'relation-attribute': lambda: self.element('MessageID', 'urn:a', ' RelationshipType="urn:x"'),
            'uri': lambda: self.element(plain, rng.choice(['http://[bad', 'http://a b:c d', '::', 'http://x:port/'])),
        }[kind]()

    def header(self, blocks, space='\n'):
        return f'<h:Header xmlns:h="{self.env}"{self.declare()}>{space}{space.join(blocks)}</h:Header>'


def official(text):
    """Does every block of addressing satisfy the official schema?"""
    return all(OFFICIAL.validate(etree.fromstring(etree.tostring(block))) for block in etree.fromstring(text)
               if isinstance(block.tag, str) and etree.QName(block).namespace == WSA)


def random_values(rng):
    values = {n: uri(rng) for n in ('Action', 'MessageID', 'To')}
    for n in ('RelatesTo', 'ReplyTo'):
        if rng.random() < 0.4:
            values[n] = uri(rng)
    return values


def read(header):
    values = {n: getattr(header, n) for n in NAMES}
    values['ReplyTo'] = values['ReplyTo'].Address if values['ReplyTo'] is not None else None
    return {k: v for k, v in values.items() if v is not None}


def make(values, cls=None):
    header = (cls or wsa.Header)()
    for name, value in values.items():
        setattr(header, name, wsa.ReplyTo(Address=value) if name == 'ReplyTo' else value)
    return header


def read_xml(header):
    """Values of a header element, everything in it is valid and there once."""
    values = {}
    for block in header:
        name = etree.QName(block)
        if name.namespace != WSA:
            continue
        assert name.localname not in values, f'{name.localname} twice'
        assert OFFICIAL.validate(etree.fromstring(etree.tostring(block))), f'{etree.tostring(block)}: {OFFICIAL.error_log}'
        values[name.localname] = block[0].text if len(block) else block.text
    return values


class Custom(wsa.Header):
    """Addressing and something else."""

    Session = xsd.Element(xsd.Int, minOccurs=0, namespace='urn:session')


class Setting:
    """A service with one of the ways to declare the header."""

    def __init__(self, rng, service):
        self.service = service
        base = service.service
        self.kind = rng.choice(['plain', 'plain', 'plain', 'custom', 'custom-output', 'method', 'off', 'off-declared'])
        self.inputs = self.outputs = wsa.Header
        kwargs = {'use_wsa': True}
        if self.kind == 'custom':
            self.inputs = self.outputs = kwargs['input_header'] = kwargs['output_header'] = Custom
        elif self.kind == 'custom-output':
            self.outputs = kwargs['output_header'] = Custom
        elif self.kind == 'method':
            for method in base.methods:
                method.input_header = method.output_header = Custom
            self.inputs = self.outputs = Custom
        elif self.kind == 'off':
            kwargs, self.inputs, self.outputs = {}, None, None
        elif self.kind == 'off-declared':
            kwargs = {'input_header': wsa.Header, 'output_header': wsa.Header}
        self.soapfish = soap.Service(name=base.name, targetNamespace=base.targetNamespace, location=base.location, schemas=base.schemas, methods=base.methods,
                                     version=base.version, **kwargs)


class Ids:
    """Message ids which have been seen in this process."""

    seen = set()


def reply_header(mon, rng, cls, source, seen, other=True):
    """A reply header from fill_header, checked: (header, values)."""
    header = cls()
    before = {}
    if rng.random() < 0.3:
        before['ReplyTo'] = uri(rng)
        header.ReplyTo = wsa.ReplyTo(Address=before['ReplyTo'])
    if source is None:
        before['Action'] = uri(rng)
        header.Action = before['Action']
    elif rng.random() < 0.2:
        # What is left of an earlier use of the header does not count.
        header.Action, header.RelatesTo, header.MessageID, header.To = uri(rng), uri(rng), uri(rng), uri(rng)
        mon.event('used-before')
    copy = read(source) if source is not None else None
    ids = Ids.seen
    if source is None and rng.random() < 0.5:
        wsa.fill_header(header)
    elif rng.random() < 0.3:
        wsa.fill_header(dst_header=header, src_header=source)
    else:
        wsa.fill_header(header, source)
    values = dict(before, To=ANONYMOUS)
    if source is not None:
        values['Action'] = copy['Action'] + 'Response'
        values['RelatesTo'] = copy['MessageID']
        mon.check(read(source) == copy, 'source-changed', f'fill_header changes the header of the request from {copy} to {read(source)}')
    own = header.MessageID
    mon.event('ids')
    mon.check(isinstance(own, str) and own and own not in ids, 'message-id', f'Message id {own!r} is not new')
    mon.check(copy is None or own not in copy.values(), 'message-id-copied', f'Message id {own!r} is one of the request {copy}')
    ids.add(own)
    values['MessageID'] = own
    mon.check(read(header) == values, 'reply-filled', f'Reply to {copy} is {read(header)} instead of {values}')
    if rng.random() < 0.2:
        # The same header is used for another reply.
        if other and source is not None and rng.random() < 0.5:
            source = wsa.Header(Action=uri(rng), MessageID=uri(rng), To=uri(rng))
            values.update(Action=source.Action + 'Response', RelatesTo=source.MessageID)
        wsa.fill_header(header, source)
        again = header.MessageID
        mon.event('filled-again')
        mon.check(isinstance(again, str) and again and again not in ids and (copy is None or again not in copy.values()), 'message-id',
                  f'Message id {again!r} of a header filled again is not new')
        ids.add(again)
        values['MessageID'] = again
        mon.check(read(header) == values, 'reply-filled', f'Reply to {copy}, filled again, is {read(header)} instead of {values}')
    return header, values


def serve(mon, rng, index):
    with svc.RandomService(rng, schemas=2, operations=2, headers=0, service_header=0, class_types=0) as service:
        setting = Setting(rng, service)
        strict = rng.random() < 0.5
        dispatcher = SOAPDispatcher(setting.soapfish, strict_soap_header=strict)
        mon.event(service.soap_name)
        for _ in range(6):
            op = rng.choice([o for o in service.ops if service.dispatched_by_root(o)] or service.ops)
            writer = Writer(rng, service.env)
            values = random_values(rng)
            partial = rng.random() < 0.15
            if partial:
                values.pop(rng.choice(list(values)))
            blocks = writer.valid(values)
            session = None
            custom = setting.inputs is not None and setting.inputs is not wsa.Header
            foreign = '<s:Session xmlns:s="urn:session">%d</s:Session>'
            if rng.random() < 0.3 and not strict:
                session = rng.randint(0, 99)
                blocks.insert(rng.randint(0, len(blocks)), foreign % session)
                mon.event('lenient')
            kind = None
            if rng.random() < 0.4:
                kind, block = writer.broken()
                blocks.insert(rng.randint(0, len(blocks)), block)
            head = writer.header(blocks, rng.choice(['', '\n', ' <!-- c -->']))
            valid = official(head)
            assert not kind or not valid or kind == 'uri', (kind, head)
            assert kind or valid, head
            body = gen.plain(service.envelope(service.message(service.random_obj(rng, op.input), op.input)))
            i = body.index('>') + 1
            content = (body[:i] + head + body[i:]).encode()
            out = service.random_obj(rng, op.output)
            fails = rng.random() < 0.1
            replies = setting.outputs is not None and rng.random() < 0.85
            result = {}

            def behave(call):
                if fails:
                    raise SOAPError(service.soap.Code.CLIENT, 'no')
                value = service.instance(out, rng)
                if not replies:
                    return value
                source = call.request.soap_header
                if source is not None and (source.Action is None or source.MessageID is None):
                    source = None
                source = source if rng.random() < 0.8 else None
                header, expected = reply_header(mon, rng, setting.outputs, source, result)
                if setting.outputs is Custom and rng.random() < 0.5:
                    header.Session = 5
                result.update(expected=expected, source=source)
                return SOAPResponse(value, soap_header=header)

            service.behave = behave
            service.calls.clear()
            environ = service.environ(rng, content, op.action)
            response = dispatcher.dispatch(SOAPRequest(environ, content))
            reply = svc.Reply(service.env, response.http_content)
            context = {'document': content, 'response': response.http_content, 'setting': setting.kind, 'kind': kind}
            mon.event('request')
            mon.event('valid' if valid else 'invalid')
            if kind and not valid:
                mon.event(f'broken-{kind}')
            mon.judged('serve', content)
            mon.sample(**context)
            mon.check(reply.ok, 'structure', 'The response is no envelope with one element', **context)
            if not valid:
                if not mon.check(not service.calls, 'invalid-handled', f'The handler is called for an addressing header with {kind}', **context):
                    continue
                mon.check(reply.fault is not None and reply.code() in svc.CLIENT[service.env], 'invalid-fault', 'An invalid addressing header gives no client fault', **context)
                continue
            if not mon.check(len(service.calls) == 1 and service.calls[0].op is op, 'not-handled', 'A valid addressing header keeps the request from its handler', **context):
                continue
            if fails:
                mon.event('fault-reply')
                mon.check(reply.fault is not None, 'fault-lost', 'SOAPError of the handler gives no fault', **context)
                continue
            mon.check(reply.fault is None, 'fault', 'A fault instead of the reply', **context)
            header = service.calls[0].header
            if setting.inputs is None:
                mon.event('not-enabled')
                mon.check(header is None, 'header-undeclared', f'The handler of a service without headers gets {header!r}', **context)
            else:
                if custom:
                    mon.event('method-header' if setting.kind == 'method' else 'custom-header')
                if not mon.check(isinstance(header, setting.inputs), 'header-type', f'The handler gets the header {header!r} instead of {setting.inputs}', **context):
                    continue
                mon.check(read(header) == values, 'header-values', f'The handler gets {read(header)} instead of {values}', **context)
                if custom:
                    mon.check(header.Session == session, 'header-session', f'The handler gets the session {header.Session} instead of {session}', **context)
            if not result:
                mon.check(reply.header is None, 'header-invented', 'The reply has a header which nobody set', **context)
                continue
            mon.event('reply')
            mon.event('correlated' if result['source'] is not None else 'no-source')
            if not mon.check(reply.header is not None, 'reply-no-header', 'The reply has no header', **context):
                continue
            try:
                got = read_xml(reply.header)
            except AssertionError as e:
                mon.violation('reply-invalid', f'Header of the reply: {e}', **context)
                continue
            mon.check(got == result['expected'], 'reply-values', f'Header of the reply has {got} instead of {result["expected"]}', **context)


def render(mon, rng, index):
    """Whatever header the library renders is valid, says what was set and is read back."""
    for _ in range(6):
        for cls in (wsa.Header, Custom):
            values = random_values(rng)
            header = make(values, cls)
            version = rng.choice([svc.soap11, svc.soap12])
            body = type('Body', (xsd.ComplexType,), {'x': xsd.Element(xsd.Int)})(x=1)
            xsd.Schema('urn:body', elementFormDefault=rng.choice(list(xsd.ElementFormDefault)), complexTypes=[type(body)], elements={'body': xsd.Element(type(body))})
            content = version.Envelope.response('body', body, header=header)
            root = etree.fromstring(content)
            mon.judged('render', content)
            mon.event('rendered')
            try:
                got = read_xml(root[0])
            except AssertionError as e:
                mon.violation('render-invalid', f'{e}', document=content)
                continue
            mon.check(got == values, 'render-values', f'{values} becomes {got}', document=content)
            order = [etree.QName(x).localname for x in root[0]]
            mon.check(order == [n for n in ['Action', 'MessageID', 'To', 'ReplyTo', 'RelatesTo'] if n in values], 'render-order', f'The order is {order}', document=content)
            back = version.Envelope.parsexml(content).Header.parse_as(cls)
            mon.check(read(back) == values, 'render-parsed', f'{values} is read as {read(back)}', document=content)


def stub(mon, rng, index):
    """Both sides: the client sends a header and reads the one of the reply."""
    server = loop.Server.get()
    with svc.RandomService(rng, schemas=1, operations=2, headers=0, service_header=0, class_types=0) as service:
        setting = Setting(rng, service)
        if setting.outputs is None:
            setting = Setting(random.Random(1), service)
            if setting.outputs is None:
                return
        dispatcher = SOAPDispatcher(setting.soapfish, strict_soap_header=False)
        client = soap.Stub(service=setting.soapfish, location=f'http://{server.host}/soap')
        conversation = None
        for _ in range(5):
            op = rng.choice(service.ops)
            values = random_values(rng)
            if conversation and rng.random() < 0.5:
                values['RelatesTo'] = conversation
            out = service.random_obj(rng, op.output)
            foreign = rng.random() < 0.3
            result = {}

            def behave(call):
                header, expected = reply_header(mon, rng, setting.outputs, call.request.soap_header, result, other=False)
                result.update(expected=expected, header=read(call.request.soap_header))
                return SOAPResponse(service.instance(out, rng), soap_header=header)

            def answer(exchange):
                if foreign:
                    result['header'] = read_xml(etree.fromstring(exchange.content)[0])
                    result['expected'] = random_values(rng)
                    writer = Writer(rng, service.env)
                    body = gen.plain(service.envelope(service.message(out, op.output, op.output_tag)))
                    i = body.index('>') + 1
                    return 200, {'Content-Type': svc.CONTENT_TYPES[service.env]}, (body[:i] + writer.header(writer.valid(result['expected'])) + body[i:]).encode()
                environ = service.environ(rng, exchange.content, op.action)
                response = dispatcher.dispatch(SOAPRequest(environ, exchange.content))
                return int(str(response.http_status_code)), dict(response.http_headers), response.http_content

            service.behave, server.answer = behave, answer
            header = make(values, setting.inputs)
            response = client.call(op.name, service.instance(service.random_obj(rng, op.input), rng), header=header)
            context = {'setting': setting.kind, 'request': server.exchanges[-1].content if server.exchanges else None}
            mon.event('stub')
            mon.judged('stub', context['request'])
            mon.check(read(header) == values, 'stub-mutated', f'The stub changes the header {values} to {read(header)}', **context)
            mon.check(result.get('header') == values, 'stub-sent', f'The handler gets {result.get("header")} instead of {values}', **context)
            if not mon.check(isinstance(response.soap_header, setting.outputs), 'stub-header', f'The client gets the header {response.soap_header!r}', **context):
                continue
            mon.check(read(response.soap_header) == result['expected'], 'stub-reply', f'The client gets {read(response.soap_header)} instead of {result["expected"]}', **context)
            if not foreign:
                mon.check(response.soap_header.RelatesTo == values['MessageID'], 'stub-correlation', 'The reply does not relate to the request', **context)
                conversation = response.soap_header.MessageID


SCRIPT = '''
import json, random, sys
random.seed(0)
from soapfish import wsa
ids = []
for i in range(%d):
    header = wsa.Header()
    wsa.fill_header(header)
    ids.append(header.MessageID)
print(json.dumps(ids))
'''


def identity(mon, rng, index):
    """Message ids are never repeated: in threads, forks, new processes and whatever the state of random number generators and clocks."""
    ids, lock = [], threading.Lock()

    def work(n):
        own = []
        for _ in range(n):
            header = wsa.Header()
            wsa.fill_header(header)
            own.append(header.MessageID)
        with lock:
            ids.extend(own)

    if index % 4 == 0:
        threads = [threading.Thread(target=work, args=(250,)) for _ in range(6)]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(interval)
        mon.event('ids-threads')
    elif index % 4 == 1:
        import time
        state = random.getstate()
        try:
            for _ in range(40):
                random.seed(7)
                work(10)
            # The clock may stand still.
            now, ns = time.time(), time.time_ns()
            originals = time.time, time.time_ns
            time.time, time.time_ns = (lambda: now), (lambda: ns)
            try:
                work(400)
            finally:
                time.time, time.time_ns = originals
        finally:
            random.setstate(state)
        mon.event('ids-seeded')
    elif index % 4 == 2:
        for _ in range(3):
            reader, writer = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    ids.clear()
                    work(300)
                    os.write(writer, json.dumps(ids).encode())
                finally:
                    os._exit(0)
            os.close(writer)
            with os.fdopen(reader, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            ids.extend(json.loads(data))
        work(300)
        mon.event('ids-forked')
    else:
        for _ in range(2):
            env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            out = subprocess.run([sys.executable, '-c', SCRIPT % 100], env=env, capture_output=True, check=True, cwd='/').stdout
            ids.extend(json.loads(out))
        mon.event('ids-processes')
    mon.event('ids', len(ids))
    mon.judged('ids', index)
    mon.check(len(set(ids)) == len(ids), 'message-id-repeated', f'{len(ids) - len(set(ids))} of {len(ids)} message ids are repeated')
    mon.check(not any(x in Ids.seen for x in ids), 'message-id-repeated', 'Message ids are repeated')
    Ids.seen.update(ids)
    for x in ids[:3]:
        mon.check(re.fullmatch(r'[^\s<>"{}|\\^`]+', x) is not None, 'message-id-uri', f'{x!r} is no URI')


def generated(mon, rng, index):
    """A service of wsdl2py has addressing if and only if this was asked for."""
    from vf.checks import c18
    target = rng.choice(['client', 'server'])
    use = bool(index % 2)
    code = wsdl2py.generate_code_from_wsdl((c18.WSDL % c18.XSD).encode(), target, use_wsa=use)
    namespace = {'__name__': 'vf_generated'}
    exec(compile(code, 'generated', 'exec'), namespace)
    services = [v for v in namespace.values() if isinstance(v, soap.Service)]
    mon.event('generated')
    mon.judged('generated', target, use, index)
    mon.check(len(services) == 1, 'generated-service', f'{len(services)} services', code=code)
    expected = (use, wsa.Header if use else None, wsa.Header if use else None)
    got = (services[0].use_wsa, services[0].input_header, services[0].output_header)
    mon.check(got == expected, 'generated-wsa', f'{got} instead of {expected}', code=code)


def groups(tier):
    n = 25 if tier == 'thorough' else 2
    return [Group('serve', serve, 900 * n), Group('render', render, 60 * n), Group('stub', stub, 120 * n), Group('identity', identity, 12 * n),
            Group('generated', generated, 50 if n == 1 else 100)]
