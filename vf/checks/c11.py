"""C11: faults tell the client exactly what the service raised."""
import copy
import pickle
import re

from lxml import etree

from soapfish import soap11, soap12
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.middlewares import ExceptionLogger, ExceptionToSoapFault
from vf import gen, svc
from vf.checks import c10
from vf.core import Group, deliberate

PROPERTY = 'C11'
RULE = ('A case lets the handler or a middleware of a random service fail in a random way and reads the reply with an independent '
        'fault reader; non-trivial and distinct by error, place and way of failing.')
REQUIRED = {'raised': 300, 'returned': 300, 'response': 150, 'middleware': 300, 'handler': 300, 'exception': 300, 'traceback': 60,
            'fault-header': 80, 'control-characters': 50, 'client': 1000, 'direct': 300, 'copied': 100, 'next-request': 300}

MESSAGES = ['failed', 'a < b & "c" \'d\'', ']]>', '<b>x</b>', '&amp;', ' leading', 'trailing\n', 'tab\there', 'line\nbreak', 'cr\r\nlf', '\xe9\u20ac',
            '\U0001f600', 'x' * 5000, '%s {0} ${host}', '\\n', 'None', '0', '<!-- c -->', '<?pi?>', 'a\x00b', '\x1b[31m', '\ud800', '\ufffe\uffff', '\x85\u2028', 'a\x0cb']
CODES11 = ['Client.Authentication', 'Server.Busy', 'VersionMismatch', 'Custom & <code>', 'c\xf6de', 'ns:Client']
ACTORS = [None, None, 'urn:actor', 'http://x/?a=1&b=<2>', 'the actor', '\xe9', '']


class Odd(Exception):
    pass


class OddSoap(SOAPError):
    pass


EXCEPTIONS = [ValueError, KeyError, RuntimeError, Odd, ZeroDivisionError, OSError, UnicodeError, AssertionError, StopIteration, LookupError,
              NotImplementedError, AttributeError, TypeError, etree.XMLSyntaxError]


def clean(text):
    """Characters which do not exist in XML are replaced."""
    return ''.join(c if c in '\t\n\r' or '\x20' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or c >= '\U00010000' else '\ufffd' for c in text)


def random_error(rng, soap):
    code = rng.choice([soap.Code.CLIENT, soap.Code.SERVER])
    if soap is soap11 and rng.random() < 0.4:
        code = rng.choice(CODES11)
    message = rng.choice(MESSAGES) if rng.random() < 0.8 else ''.join(rng.choice(MESSAGES) for _ in range(3))
    if rng.random() < 0.1:
        message = ''.join(chr(rng.choice([rng.randint(0, 0x300), rng.randint(0, 0xffff), rng.randint(0, 0x10ffff)])) for _ in range(20))
    return rng.choice([SOAPError, SOAPError, OddSoap])(code, message, *([rng.choice(ACTORS)] if rng.random() < 0.6 else []))


def read(mon, service, response, error, header, context):
    """The reply is the fault for an error."""
    mon.check(response.http_status_code == 500, 'status', f'Status {response.http_status_code} for a fault', **context)
    content_type = {k.lower(): v for k, v in response.http_headers.items()}.get('content-type', '')
    mon.check(content_type.split(';')[0] == svc.CONTENT_TYPES[service.env], 'content-type', f'Content type {content_type!r}', **context)
    mon.check(isinstance(response.http_content, bytes), 'bytes', 'Content is not bytes', **context)
    try:
        reply = svc.Reply(service.env, response.http_content)
    except etree.XMLSyntaxError as e:
        mon.violation('malformed', f'Reply is not well-formed: {e}', **context)
        return
    if not mon.check(reply.ok and reply.fault is not None, 'no-fault', 'Reply is not one fault', **context):
        return
    judge_fault(mon, service.soap, service.env, reply, error, context)
    if header is not None:
        mon.event('fault-header')
        node = gen.Node(service.env, 'Header')
        node.children = service.header_parts(header)
        found = ['missing'] if reply.header is None else gen.compare_document(node, reply.header)
        mon.check(not found, 'header', f'Header of the fault differs: {found[:3]}', **context)
    else:
        mon.check(reply.header is None or not len(reply.header), 'header-invented', 'Fault has a header nobody set', **context)
    client(mon, service.soap, response.http_content, error, context)


def judge_fault(mon, soap, env, reply, error, context, dispatched=True):
    try:
        code, message, actor = reply.parts()
        reply.code()
    except ValueError as e:
        mon.violation('structure', f'Malformed fault: {e}', **context)
        return
    expected = str(getattr(error.code, 'value', error.code))
    mon.check(code == expected, 'code', f'Code is {code!r} instead of {expected!r}', **context)
    mon.check(message == clean(error.message), 'message', f'Message is {message!r} instead of {error.message!r}', **context)
    if error.actor and not actor and dispatched:
        mon.violation('actor-omitted', f'Fault has no actor instead of {error.actor!r}', **context)
    else:
        mon.check((actor or None) == (error.actor or None), 'actor', f'Actor is {actor!r} instead of {error.actor!r}', **context)
    return actor


def client(mon, soap, content, error, context, dispatched=True):
    fault = soap.Envelope.parsexml(content).Body.Fault
    mon.event('client')
    code, message, actor = soap.parse_fault_message(fault)
    mon.check(code == str(getattr(error.code, 'value', error.code)), 'client-code', f'Client reads the code {code!r}', **context)
    mon.check((message or '') == clean(error.message), 'client-message', f'Client reads the message {message!r}', **context)
    if error.actor and not actor and dispatched:
        mon.violation('actor-omitted', f'Client reads no actor instead of {error.actor!r}', **context)
    else:
        mon.check((actor or None) == (error.actor or None), 'client-actor', f'Client reads the actor {actor!r}', **context)


class Failing:
    """A middleware which fails before or after the rest of the stack."""

    def __init__(self, late):
        self.late, self.action = late, None

    def __call__(self, request, next_call):
        if self.action and not self.late:
            return self.action()
        response = next_call(request)
        return self.action() if self.action else response


def passing(request, next_call):
    return next_call(request)


def make_exception(rng):
    cls = rng.choice(EXCEPTIONS)
    message = rng.choice(MESSAGES)
    if cls is etree.XMLSyntaxError:
        return cls(message, 1, 2, 3)
    return cls(message) if rng.random() < 0.9 else cls() if cls is not UnicodeError else cls()


def fail(mon, rng, index):
    with svc.RandomService(rng, schemas=2, operations=2, headers=0.6) as service:
        failing = Failing(rng.random() < 0.5)
        with_traceback = rng.random() < 0.3
        converter = ExceptionToSoapFault(traceback=with_traceback) if with_traceback or rng.random() < 0.5 else ExceptionToSoapFault()
        stack = [failing] + [rng.choice([passing, ExceptionLogger(), ExceptionLogger(exceptions=(ValueError,), traceback=False)])
                             for _ in range(rng.randint(0, 2))]
        rng.shuffle(stack)
        convert = rng.random() < 0.7
        if convert:
            at = rng.randint(0, stack.index(failing))
            stack.insert(at, converter)
        dispatcher = c10.open_dispatcher(service, middlewares=stack)
        for _ in range(3):
            one(mon, rng, service, dispatcher, failing, convert, with_traceback)


def one(mon, rng, service, dispatcher, failing, convert, with_traceback):
    op = rng.choice(service.ops)
    error, header = random_error(rng, service.soap), None
    state = (error.code, error.message, error.actor, error.args)
    way = rng.choice(['raised', 'returned', 'response'] + ['exception'] * 2 * convert)
    place = rng.choice(['handler', 'middleware'])
    exception = None
    if way == 'exception':
        exception = make_exception(rng)
    if way == 'response' and service.out_header(op) and rng.random() < 0.7:
        header = service.random_header(rng, service.out_header(op))

    def action(call=None):
        if way == 'raised':
            raise error
        if way == 'exception':
            raise deliberate(exception)
        if way == 'returned':
            return error
        kwargs = {'soap_header': service.instance(header, rng)} if header else {}
        if rng.random() < 0.3:
            kwargs['http_status_code'] = rng.choice([200, 202, 400, 503])
        if rng.random() < 0.3:
            kwargs['http_headers'] = {'Content-Type': 'text/html'}
        return SOAPResponse(error, **kwargs)

    out = service.random_obj(rng, op.output)
    failing.action = action if place == 'middleware' else None
    service.behave = action if place == 'handler' else lambda call: service.instance(out, rng)
    content = service.spell(rng, service.envelope(service.message(service.random_obj(rng, op.input), op.input)), gen.PLAIN)
    service.calls.clear()
    response = dispatcher.dispatch(SOAPRequest(service.environ(rng, content, op.action), content))
    context = {'error': error if exception is None else exception, 'way': f'{way} in {place}', 'response': response.http_content, 'request': content, 'service': service}
    mon.event(way)
    mon.event(place)
    mon.judged(way, place, repr(context['error']), service.soap_name)
    mon.sample(error=context['error'], way=context['way'], response=response.http_content)
    if clean(error.message) != error.message:
        mon.event('control-characters')
    if exception is None:
        read(mon, service, response, error, header, context)
    else:
        read_exception(mon, service, response, exception, with_traceback, context)
    mon.check((error.code, error.message, error.actor, error.args) == state, 'error-changed', f'{state} became {(error.code, error.message, error.actor)}', **context)
    # The failure leaves no trace.
    failing.action = None
    service.behave = lambda call: service.instance(out, rng)
    response = dispatcher.dispatch(SOAPRequest(service.environ(rng, content, op.action), content))
    mon.event('next-request')
    found = c10.reply_differences(service, op, out, svc.Reply(service.env, response.http_content))
    mon.check(not found and response.http_status_code == 200, 'next-request', f'Next request gets status {response.http_status_code}: {found[:2]}', **context)


def read_exception(mon, service, response, exception, with_traceback, context):
    context['response'] = response.http_content
    mon.check(response.http_status_code == 500, 'status', f'Status {response.http_status_code} for a fault', **context)
    reply = svc.Reply(service.env, response.http_content)
    if not mon.check(reply.ok and reply.fault is not None, 'no-fault', 'Reply is not one fault', **context):
        return
    try:
        code, message = reply.code(), reply.parts()[1]
    except ValueError as e:
        mon.violation('structure', f'Malformed fault: {e}', **context)
        return
    mon.check(code in svc.SERVER[service.env], 'exception-code', f'Exception becomes code {code}', **context)
    name, text = type(exception).__name__, clean(str(exception))
    mon.check(name in message, 'exception-name', f'Message {message!r} does not name {name}', **context)
    if with_traceback:
        mon.event('traceback')
        lines = lambda x: re.sub(r'\s+', ' ', x).strip()
        mon.check('Traceback' in message and 'c11.py' in message, 'no-traceback', f'Message {message[:200]!r} has no traceback', **context)
        if isinstance(exception, SyntaxError):
            text = clean(exception.msg)
        mon.check(lines(text) in lines(message), 'exception-text', f'Message does not contain {text!r}', **context)
    else:
        mon.check(text in message, 'exception-text', f'Message {message!r} does not contain {text!r}', **context)
        mon.check('Traceback' not in message and '.py' not in message and len(message) < len(text) + len(name) + 20, 'traceback-leaked', f'Message {message!r} gives away more', **context)


def copies(mon, rng, index):
    """Errors survive the way to another process."""
    error = random_error(rng, rng.choice([soap11, soap12]))
    how = rng.choice(['pickle', 'copy', 'deepcopy'])
    mon.event('copied')
    try:
        copied = {'pickle': lambda x: pickle.loads(pickle.dumps(x)), 'copy': copy.copy, 'deepcopy': copy.deepcopy}[how](error)
    except Exception as e:
        mon.check(False, 'copied', f'{how} of {error!r} raises {e!r}')
        return
    mon.judged(how, repr(error))
    state = lambda x: (type(x), x.code, x.message, x.actor, str(x))
    mon.check(state(copied) == state(error), 'copied', f'{state(error)} becomes {state(copied)} by {how}')


def direct(mon, rng, index):
    """The functions of the SOAP versions on their own."""
    soap = rng.choice([soap11, soap12])
    env = svc.S11 if soap is soap11 else svc.S12
    error = random_error(rng, soap)
    error.message = clean(error.message)
    content = soap.get_error_response(error.code, error.message, actor=error.actor)
    context = {'error': error, 'response': content}
    mon.event('direct')
    mon.judged('direct', soap.__name__, repr(error))
    reply = svc.Reply(env, content)
    if mon.check(reply.ok and reply.fault is not None, 'no-fault', 'Reply is not one fault', **context):
        judge_fault(mon, soap, env, reply, error, context, dispatched=False)
        client(mon, soap, content, error, context, dispatched=False)


def actor(mon, rng, index):
    """Known finding: the dispatcher drops the actor."""
    with svc.RandomService(rng, version=[soap11, soap12][index], headers=0, service_header=0) as service:
        op = service.ops[0]

        def behave(call):
            raise SOAPError(service.soap.Code.CLIENT, 'failed', 'urn:actor')

        service.behave = behave
        content = service.spell(rng, service.envelope(service.message(service.random_obj(rng, op.input), op.input)), gen.PLAIN)
        response = c10.open_dispatcher(service).dispatch(SOAPRequest(service.environ(rng, content, op.action), content))
        mon.judged('actor', index)
        mon.check(svc.Reply(service.env, response.http_content).parts()[2], 'actor-omitted', 'The fault has no actor')


def groups(tier):
    n = 40 if tier == 'thorough' else 4
    return [Group('fail', fail, 1000 * n), Group('direct', direct, 1000 * n), Group('copies', copies, 100 * n), Group('actor', actor, 2)]
