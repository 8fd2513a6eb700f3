"""C15: a client stub call is equivalent to calling the remote handler."""
import base64
import copy
import re
import string

from soapfish import soap, soap11, soap12
from soapfish.core import SOAPError, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
from vf import gen, loop, svc
from vf.checks import c11
from vf.core import Group

PROPERTY = 'C15'
RULE = ('A case makes calls with several stubs over a loopback HTTP server, whose recorded traffic and handler log are compared with '
        'the values of the caller; non-trivial and distinct by request document.')
REQUIRED = {'calls': 1200, 'success': 500, 'fault': 200, 'canned-fault': 100, 'canned-reply': 200, 'header-sent': 200, 'header-received': 150, 'header-empty': 15, 'auth': 200, 'soap11': 300, 'soap12': 300,
            'template': 100, 'function': 50, 'interleaved': 200, 'actor': 40, 'class-input': 40, 'located': 300, 'cookie': 400, 'unusual-status': 150}


def locate(mon, rng, service):
    """Where stubs send their requests to, none is sent."""
    service_ = copy.copy(service.service)
    if rng.random() < 0.6:
        service_.location = rng.choice(['$scheme://$host/a', '${scheme}://${host}/$host/${scheme}', '$scheme://fixed.example/', 'http://$host', 'urn:${other}:$host', 'https://h/${x}', '${scheme}://${host}/${}'])
    template, seen = service_.location, []
    scheme, host = rng.choice(['https', 'http', 'x']), rng.choice(['h.example', 'h.example:8443', '[::1]:80', 'h$x'])
    cls = type('OtherStub', (soap.Stub,), {'SERVICE': service_, 'SCHEME': scheme, 'HOST': host})
    way = rng.choice(['template', 'str', 'function'])
    wanted = 'urn:x' if way == 'str' else re.sub(r'\$(?:(scheme|host)\b|\{(scheme|host)\})', lambda m: {'scheme': scheme, 'host': host}[m[1] or m[2]], template) if way == 'template' else f'{host}|{scheme}'

    def function(template, context):
        seen.append((template, dict(context)))
        return f'{context["host"]}|{context["scheme"]}'

    stub = cls(**{'str': {'location': 'urn:x'}, 'function': {'location': function}, 'template': {}}[way])
    mon.event('located')
    mon.judged('location', way, template, scheme, host)
    mon.check(stub.location == wanted, 'location', f'{stub.location!r} instead of {wanted!r} ({way}, template {template!r})')
    if way == 'function':
        mon.check(seen == [(template, {'scheme': scheme, 'host': host})], 'location-function', f'The function gets {seen}')


def make_stub(rng, service, server):
    """A stub and what it should send: (stub, path, credentials, the way to set its location)."""
    user, password = rng.choice([(None, None), (None, None), ('user', 'secret'), ('u', ''), ('a@b', 'p:w'), ('us er', 'x' * 30), ('\xfc', '\xe4')])
    path = rng.choice(['/soap', '/a/b/c', '/soap?x=1&y=2', '/s%20p'])
    cls = type('RandomStub', (soap.Stub,), {'SERVICE': service.service if rng.random() < 0.7 else None, **({'SCHEME': 'http'} if rng.random() < 0.7 else {}), 'HOST': server.host})
    kwargs = {} if cls.SERVICE else {'service': service.service}
    if cls.SERVICE and rng.random() < 0.2:
        # The given service is used instead of that of the class.
        kwargs['service'] = cls.SERVICE
        cls.SERVICE = soap.Service('urn:decoy', 'http://decoy.example/', [], [], version=rng.choice([soap11, soap12]))
    if user:
        kwargs.update(username=user, password=password)
    way = rng.choice(['template', 'str', 'function'])
    if '${host}' not in service.service.location:
        way = rng.choice(['str', 'function'])
    if way == 'str':
        kwargs['location'] = f'http://{server.host}{path}'
    elif way == 'function':
        kwargs['location'] = lambda template, context: f'{context["scheme"]}://{context["host"]}{path}'
    else:
        template = service.service.location
        path = string.Template(template).substitute(scheme='', host='|').partition('|')[2]
    stub = cls(**kwargs)
    return stub, path, (user, password), way


class Caller:
    def __init__(self, mon, rng, service, server):
        self.mon, self.rng, self.service, self.server = mon, rng, service, server
        self.stubs = [make_stub(rng, service, server) for _ in range(rng.randint(1, 3))]

    def call(self):
        mon, rng, service, server = self.mon, self.rng, self.service, self.server
        stub, path, credentials, way = rng.choice(self.stubs)
        op = rng.choice(service.ops)
        obj = service.random_obj(rng, op.input)
        head_type, out_type = service.in_header(op), service.out_header(op)
        head = service.random_header(rng, head_type, 0.15) if head_type and rng.random() < 0.7 else None
        out = service.random_obj(rng, op.output)
        out_head = service.random_header(rng, out_type, 0.15) if out_type and rng.random() < 0.7 else None
        error = c11.random_error(rng, service.soap) if rng.random() < 0.3 else None
        if error is not None:
            out_head = None
        service.calls.clear()
        server.exchanges.clear()
        canned = rng.random() < 0.35

        def behave(call):
            if error is not None:
                raise error
            value = service.instance(out, rng)
            return SOAPResponse(value, soap_header=service.instance(out_head, rng)) if out_head else value

        service.behave = behave
        server.answer = self.cookie(self.canned(op, out, out_head, error) if canned else self.real)
        parameter = service.instance(obj, rng)
        before = parameter.xml('x')
        header = service.instance(head, rng) if head else None
        context = {'op': op, 'service': service, 'way': way}
        mon.event('calls')
        mon.event('class-input', op.input_class)
        mon.event(service.soap_name)
        mon.event(way)
        response = raised = None
        try:
            response = stub.call(op.name, parameter, **({'header': header} if header is not None or rng.random() < 0.5 else {}))
        except SOAPError as e:
            raised = e
        if server.errors:
            raise server.errors[0]
        mon.check(parameter.xml('x') == before, 'parameter-changed', 'The call changes its parameter', **context)
        if not mon.check(len(server.exchanges) == 1, 'requests', f'{len(server.exchanges)} HTTP requests instead of 1', **context):
            return
        exchange = server.exchanges[0]
        context['request'] = exchange.content
        mon.judged(op.name, exchange.content, credentials, canned)
        self.judge_request(exchange, op, obj, head, path, credentials, context)
        if not canned:
            calls = service.calls
            if not mon.check(len(calls) == 1 and calls[0].op is op, 'handler', f'Calls of handlers: {[c.op.name for c in calls]}', **context):
                return
            found = gen.differences(obj, calls[0].body, parsed=True)
            mon.check(not found, 'received', f'Remote handler gets other values: {found[:3]}', **context)
            if head:
                found = gen.differences(head, calls[0].header, parsed=True)
                mon.check(not found, 'received-header', f'Remote handler gets another header: {found[:3]}', **context)
            else:
                mon.check(calls[0].header is None, 'received-header', 'Remote handler gets a header nobody sent', **context)
        context['response'] = self.sent
        if error is not None:
            mon.event('canned-fault' if canned else 'fault')
            self.judge_error(error, raised, context, canned)
            return
        if not mon.check(raised is None, 'raised', f'Call raises {raised!r}', **context):
            return
        mon.event('canned-reply' if canned else 'success')
        mon.check(isinstance(response, SOAPResponse), 'response', f'Call returns {response!r}', **context)
        mon.check(type(response.soap_body) is service.classes_of(service.type_of(op.output)), 'response-class', f'Call returns a {type(response.soap_body)}', **context)
        found = gen.differences(out, response.soap_body, parsed=True)
        mon.check(not found, 'returned', f'Caller gets other values: {found[:3]}', **context)
        if out_head:
            mon.event('header-received')
            mon.event('header-empty', not any(out_head.values.values()))
            found = ['none'] if response.soap_header is None else gen.differences(out_head, response.soap_header, parsed=True)
            mon.check(not found, 'returned-header', f'Caller gets another header: {found[:3]}', **context)
        else:
            mon.check(response.soap_header is None, 'returned-header', 'Caller gets a header nobody returned', **context)
        mon.sample(request=exchange.content, response=self.sent)

    def cookie(self, answer):
        """Sometimes the server tries to be recognised by the next call."""
        if self.rng.random() < 0.6:
            return answer
        self.mon.event('cookie')
        value = f'id{self.rng.randrange(100)}=secret{self.rng.choice(["", "; Path=/", "; Path=/; HttpOnly"])}'

        def with_cookie(exchange):
            status, headers, content = answer(exchange)
            return status, {**headers, 'Set-Cookie': value}, content

        return with_cookie

    def real(self, exchange):
        answer = loop.serve_wsgi(self.app)(exchange)
        self.sent = answer[2]
        return answer

    def canned(self, op, out, out_head, error):
        """Replies written by the independent writer in any spelling."""
        service, rng = self.service, self.rng
        parts = service.header_parts(out_head) if out_head else rng.choice([None, None, []]) if error is not None else None
        if error is None:
            body = service.message(out, op.output, op.output_tag)
        else:
            body = self.fault_node(error)
        content = service.spell(rng, service.envelope(body, parts), rng.choice([svc.STRICT, gen.PLAIN]))
        # The message counts, servers and proxies differ in the status they send with it.
        status = rng.choice([500, 500, 400, 502, 503, 504]) if error is not None else rng.choice([200, 200, 202, 203])
        self.mon.event('unusual-status', status not in (200, 500))

        def answer(exchange):
            self.sent = content
            return status, {'Content-Type': svc.CONTENT_TYPES[service.env]}, content

        return answer

    def fault_node(self, error):
        env = self.service.env
        text = gen.Simple('string')

        def leaf(ns, tag, value):
            node = gen.Node(ns, tag)
            node.leaf = (text, value)
            return node

        error.message = c11.clean(error.message).replace('\r', '')
        fault = gen.Node(env, 'Fault')
        if self.service.soap is soap11:
            fault.children = [leaf(None, 'faultcode', str(getattr(error.code, 'value', error.code))), leaf(None, 'faultstring', error.message)]
            if error.actor is not None:
                fault.children.append(leaf(None, 'faultactor', error.actor))
            if self.rng.random() < 0.3:
                detail = gen.Node(None, 'detail')
                detail.children = [leaf('urn:d', 'faultstring', 'decoy')]
                fault.children.append(detail)
            return fault
        code, reason = gen.Node(env, 'Code'), gen.Node(env, 'Reason')
        code.children = [leaf(env, 'Value', error.code)]
        word = leaf(env, 'Text', error.message)
        word.extra = {'xml:lang': 'en'}
        reason.children = [word]
        fault.children = [code, reason] + ([leaf(env, 'Role', error.actor)] if error.actor is not None else [])
        return fault

    def judge_request(self, exchange, op, obj, head, path, credentials, context):
        mon, service = self.mon, self.service
        mon.check(exchange.method == 'POST', 'method', f'Request is {exchange.method}', **context)
        mon.check(exchange.path == path, 'address', f'Request goes to {exchange.path!r} instead of {path!r}', **context)
        content_type = exchange.headers.get_all('Content-Type') or []
        types = [x.split(';')[0].strip() for x in content_type]
        mon.check(types == [svc.CONTENT_TYPES[service.env]], 'content-type', f'Content type is {content_type}', **context)
        if service.soap is soap11:
            actions = exchange.headers.get_all('SOAPAction') or []
            mon.check([a.strip('"') for a in actions] in ([[op.action]] if op.action else [[], ['']]), 'action', f'SOAPAction is {actions} instead of {op.action!r}', **context)
        else:
            parameters = '; '.join(content_type).partition(';')[2].strip()
            mon.check(f'action="{op.action}"' in parameters if op.action else 'action' not in parameters.replace('action=""', ''), 'action', f'Parameters are {parameters!r}, action is {op.action!r}', **context)
        mon.event('without-action', not op.action)
        expected = []
        user, password = credentials
        if user:
            mon.event('auth')
            expected = ['Basic ' + base64.b64encode(f'{user}:{password}'.encode('latin1')).decode()]
        actual = exchange.headers.get_all('Authorization') or []
        mon.check(actual == expected, 'credentials', f'Authorization is {actual} instead of {expected}', **context)
        mon.check('Cookie' not in exchange.headers, 'cookie', f'Another call had an influence: {exchange.headers.get_all("Cookie")}', **context)
        sent = svc.Reply(service.env, exchange.content)
        if not mon.check(sent.ok, 'envelope', 'Request is no envelope', **context):
            return
        found = gen.compare_document(service.message(obj, op.input), sent.content)
        mon.check(not found, 'sent', f'Stub sends other values: {found[:3]}', **context)
        if head:
            mon.event('header-sent')
            node = gen.Node(service.env, 'Header')
            node.children = service.header_parts(head)
            found = ['none'] if sent.header is None else gen.compare_document(node, sent.header)
            mon.check(not found, 'sent-header', f'Stub sends another header: {found[:3]}', **context)
        else:
            mon.check(sent.header is None or not len(sent.header), 'sent-header', 'Stub sends a header nobody gave', **context)

    def judge_error(self, error, raised, context, canned):
        mon = self.mon
        if not mon.check(raised is not None, 'not-raised', f'{error!r} is not raised', **context):
            return
        mon.check(type(raised) is SOAPError, 'error-type', f'Call raises {type(raised)}', **context)
        code = str(getattr(error.code, 'value', error.code))
        mon.check(raised.code == code, 'error-code', f'Code is {raised.code!r} instead of {code!r}', **context)
        mon.check((raised.message or '') == c11.clean(error.message), 'error-message', f'Message is {raised.message!r} instead of {error.message!r}', **context)
        actor = error.actor or None
        if canned:
            if actor:
                mon.event('actor')
        else:
            # The dispatcher does not send it (known finding of C11), the caller gets what is on the wire.
            actor = svc.Reply(self.service.env, self.sent).parts()[2] or None
        mon.check((raised.actor or None) == actor, 'error-actor', f'Actor is {raised.actor!r} instead of {actor!r}', **context)


def calls(mon, rng, index):
    server = loop.Server.get()
    with svc.RandomService(rng, schemas=2, operations=3, headers=0.5, class_inputs='declared') as service:
        # The server does not speak https.
        service.service.location = service.service.location.replace('https://$', 'http://$')
        locate(mon, rng, service)
        caller = Caller(mon, rng, service, server)
        caller.app = WsgiSoapApplication(SOAPDispatcher(service.service))
        if len(caller.stubs) > 1:
            mon.event('interleaved')
        for _ in range(4):
            caller.call()


def groups(tier):
    n = 25 if tier == 'thorough' else 4
    return [Group('calls', calls, 500 * n)]
