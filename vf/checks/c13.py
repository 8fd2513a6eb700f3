"""C13: middlewares and hooks wrap every request in the declared order."""
import functools
import io
import logging
import urllib.parse

from lxml import etree

from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.middlewares import ExceptionLogger, ExceptionToSoapFault
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
from vf import gen, mutate, svc
from vf.core import Group, deliberate

PROPERTY = 'C13'
RULE = ('A case runs requests through a random stack of scripted middlewares and hooks and compares the trace of all events with '
        'that of a reference interpreter; non-trivial and distinct by trace.')
REQUIRED = {'requests': 2500, 'events': 10000, 'short': 200, 'raise-before': 150, 'raise-after': 150, 'swallow': 150, 'translate': 150, 'retry': 150, 'replace': 200,
            'invalid-request': 150, 'propagated': 100, 'soap-request': 300, 'soap-response': 300, 'wsdl-request': 100, 'wsdl-response': 100,
            'xsd-request': 50, 'xsd-response': 50, 'hook-replaced': 200, 'hook-refused': 100, 'names': 100, 'amended': 200, 'attempts': 400, 'logged': 100, 'not-logged': 20, 'fault': 300, 'success': 500}
KINDS = ['pass', 'pass', 'pass', 'replace', 'replace-raw', 'short', 'short-raw', 'short-error', 'raise-before', 'raise-after', 'raise-error', 'swallow', 'translate',
         'translate-returned', 'decorate', 'to-fault', 'logger', 'retry']
HOOKS = [f'{a}-{b}' for a in ('soap', 'wsdl', 'xsd') for b in ('request', 'response')]


class Boom(Exception):
    pass


class Falsy:
    """A callable which is false and equal to any other one."""

    def __init__(self, function):
        self.function = function

    def __call__(self, *args, **kwargs):
        return self.function(*args, **kwargs)

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Falsy)

    __hash__ = None


def disguise(rng, function):
    """The same function as another kind of callable."""
    kind = rng.choice(['function', 'function', 'falsy', 'method', 'partial'])
    return {'function': function, 'falsy': Falsy(function), 'method': Falsy(function).__call__, 'partial': functools.partial(function)}[kind]


class Outcome:
    """What a layer answers: a returned object or a raised exception."""

    def __init__(self, kind, obj, values=None, method=False):
        self.kind, self.obj, self.values = kind, obj, values
        self.method = method  # Wrapped by the dispatcher.

    def describe(self):
        return (self.kind, type(self.obj).__name__)


class World:
    """One service with a stack: the real thing writes a trace, so does the interpreter."""

    def __init__(self, mon, rng, service):
        self.mon, self.rng, self.service = mon, rng, service
        self.kinds = [rng.choice(KINDS) for _ in range(rng.randint(0, 5))]
        self.trace = []
        self.plan = {}
        self.records = []
        self.loggers = {}
        self.logger = logging.Logger('vf')
        handler = logging.Handler()
        handler.emit = self.records.append
        self.logger.addHandler(handler)
        self.request = None

    def stack(self):
        return [disguise(self.rng, self.middleware(i, kind)) for i, kind in enumerate(self.kinds)]

    def new(self, op, kind):
        """A planned answer: (object, values)."""
        rng, service = self.rng, self.service
        if kind in ('error', 'returned-error'):
            code = rng.choice([service.soap.Code.CLIENT, service.soap.Code.SERVER])
            return SOAPError(code, f'error {rng.randint(0, 10 ** 6)}'), None
        if kind == 'exception':
            text = rng.choice(['boom {}', 'boom {}', 'boom {} %s', '100% {} %(x)d', '{{0}} {}', 'two\nlines {}']).format(rng.randint(0, 10 ** 6))
            return rng.choice([Boom, ValueError, KeyError])(*rng.choice([(text, ), (text, ), (text, 7)])), None
        values = service.random_obj(rng, op.output)
        obj = service.instance(values, rng)
        if kind == 'response':
            obj = SOAPResponse(obj, http_status_code=rng.choice([200, 200, 202]), http_headers=rng.choice([None, {'X-Plan': 'p'}, {'Content-Type': 'text/plain', 'X-Plan': 'p'}]))
        return obj, values

    def make_plan(self, op):
        self.plan = {}
        for i, kind in enumerate(self.kinds):
            wanted = {'replace': 'response', 'replace-raw': 'raw', 'short': 'response', 'short-raw': 'raw', 'short-error': 'error', 'raise-before': 'exception',
                      'raise-after': 'exception', 'raise-error': 'error', 'swallow': 'response', 'translate': 'error', 'translate-returned': 'error'}.get(kind)
            if wanted:
                self.plan[i] = self.new(op, wanted)
        kind = self.rng.choice(['raw', 'raw', 'response', 'response', 'error', 'exception', 'returned-error'])
        self.plan['handler'] = (kind, *self.new(op, kind))

    # -- the real stack
    def middleware(self, i, kind):
        if kind == 'to-fault':
            return ExceptionToSoapFault()
        if kind == 'logger':
            kwargs = self.rng.choice([{}, {'traceback': False}, {'exceptions': (ValueError, Exception)}, {'exceptions': (ValueError, ), 'traceback': False},
                                      {'exceptions': (KeyError, SOAPError)}, {'exceptions': (Boom, ), 'traceback': True}])
            self.loggers[i] = kwargs.get('exceptions', (Exception, )), kwargs.get('traceback', True)
            return ExceptionLogger(logger=self.logger, **kwargs)

        def run(request, next_call):
            log = lambda *event: self.trace.append((i, *event))
            log('enter', request is self.request)
            planned = self.plan.get(i, (None,))[0]

            def inner():
                try:
                    response = next_call(request)
                except Exception as e:
                    log('raised', id(e), self.seen(request))
                    raise
                log('returned', self.identify(response), self.seen(request))
                return response

            if kind == 'pass':
                return inner()
            if kind == 'retry':
                try:
                    inner()
                except Exception:
                    pass
                return inner()
            if kind == 'decorate':
                response = inner()
                if isinstance(response, SOAPResponse):
                    response.http_headers[f'X-{i}'] = 'decorated'
                return response
            if kind in ('replace', 'replace-raw'):
                inner()
                return planned
            if kind in ('short', 'short-raw', 'short-error'):
                return planned
            if kind == 'raise-before':
                raise deliberate(planned)
            if kind in ('raise-after', 'raise-error'):
                inner()
                raise deliberate(planned)
            try:
                return inner()
            except Exception as e:
                if kind == 'translate':
                    raise deliberate(planned) from e
                return planned

        return run

    def seen(self, request):
        """The parsed request is visible once the method was prepared."""
        return (request.method.operationName if request.method else None, request.soap_body is not None)

    def identify(self, response):
        # The dispatcher wraps what handlers return.
        if isinstance(response, SOAPResponse):
            return ('response', id(response.soap_body))
        return ('object', id(response))

    # -- the interpreter
    def interpret(self, i, op, valid, trace):
        """Returns an Outcome, events go to the trace."""
        plan = self.plan
        if i == len(self.kinds):
            if not valid:
                self.prepared = False
                return Outcome('raised-fault', None)
            self.prepared = True
            trace.append(('handler',))
            kind, obj, values = plan['handler']
            if kind in ('error', 'exception'):
                return Outcome('raised', obj)
            return Outcome('returned', obj, values, True)
        kind = self.kinds[i]
        planned, values = plan.get(i, (None, None))
        silent = kind in ('to-fault', 'logger')
        if not silent:
            trace.append((i, 'enter', True))

        def inner():
            outcome = self.interpret(i + 1, op, valid, trace)
            seen = (op.name, True) if self.called and self.prepared else (None, False)
            if not silent:
                if outcome.kind == 'raised-fault':
                    trace.append((i, 'raised', 'fault', (None, False)))
                elif outcome.kind == 'raised':
                    trace.append((i, 'raised', id(outcome.obj), seen))
                else:
                    trace.append((i, 'returned', self.expected_identity(outcome), seen))
            return outcome

        if kind == 'pass':
            return inner()
        if kind == 'retry':
            inner()
            return inner()
        if kind == 'decorate':
            outcome = inner()
            if self.is_response(outcome):
                self.decorations.setdefault(id(outcome), [outcome, []])[1].append(f'X-{i}')
            return outcome
        if kind in ('replace', 'replace-raw', 'raise-after', 'raise-error'):
            outcome = inner()
            if outcome.kind.startswith('raised'):
                return outcome
            return Outcome('returned' if kind.startswith('replace') else 'raised', planned, values)
        if kind in ('short', 'short-raw', 'short-error'):
            return Outcome('returned', planned, values)
        if kind == 'raise-before':
            return Outcome('raised', planned)
        outcome = inner()
        raised = outcome.kind.startswith('raised')
        if kind == 'logger':
            exceptions, trace_wanted = self.loggers[i]
            if raised and (any(issubclass(SOAPError, x) for x in exceptions) if outcome.kind == 'raised-fault' else isinstance(outcome.obj, exceptions)):
                self.logged.append((outcome.obj if outcome.kind == 'raised' else None, trace_wanted))
            elif raised:
                self.mon.event('not-logged')
            return outcome
        if kind == 'to-fault':
            if outcome.kind == 'raised' and isinstance(outcome.obj, SOAPError):
                return Outcome('returned', outcome.obj)
            if outcome.kind == 'raised':
                return Outcome('returned-new', outcome.obj)
            return Outcome('returned-fault', None) if outcome.kind == 'raised-fault' else outcome
        if not raised:
            return outcome
        return Outcome('raised' if kind == 'translate' else 'returned', planned, values)

    @staticmethod
    def is_response(outcome):
        return outcome.kind == 'returned' and (isinstance(outcome.obj, SOAPResponse) or outcome.method)

    @staticmethod
    def expected_identity(outcome):
        if outcome.kind in ('returned-new', 'returned-fault'):
            return 'new-error'
        if isinstance(outcome.obj, SOAPResponse):
            return ('response', id(outcome.obj.soap_body))
        return ('response' if outcome.method else 'object', id(outcome.obj))

    @property
    def called(self):
        return self._called

    # -- one request
    def run(self, dispatcher, op, content, valid, hooks):
        rng, mon, service = self.rng, self.mon, self.service
        self.make_plan(op)
        self.trace, self.records[:] = [], []
        service.calls.clear()

        def behave(call):
            self.trace.append(('handler',))
            kind, obj, _ = self.plan['handler']
            if kind in ('error', 'exception'):
                raise deliberate(obj)
            return obj

        service.behave = behave
        request = self.request = SOAPRequest(service.environ(rng, content, op.action), content)
        hooks.reset(self, request)
        expected, self.decorations, self.logged, self.prepared = [], {}, [], False
        self._called = not any(k in ('short', 'short-raw', 'short-error', 'raise-before') for k in self.kinds)
        outcome = self.interpret(0, op, valid, expected)
        context = {'stack': self.kinds, 'request': content, 'valid': valid, 'expected': expected, 'service': service}
        try:
            response = dispatcher.dispatch(request)
        except Exception as e:
            if outcome.kind == 'raised' and outcome.obj is e:
                response = None
                mon.event('propagated')
            else:
                raise
        actual = [self.normal(x) for x in self.trace]
        wanted = [self.normal(x) for x in expected]
        context['actual'] = self.trace
        mon.event('requests')
        for kind in set(self.kinds):
            mon.event(kind)
        if not valid:
            mon.event('invalid-request')
        mon.event('events', len(actual))
        mon.judged([(x[:2] if x[0] != 'hook' else x) for x in actual], self.kinds, outcome.describe(), self.plan['handler'][0])
        names = hooks.expected_soap(outcome)
        mon.check([x for x in actual if x[0] != 'hook'] == wanted, 'trace', f'Events are {actual} instead of {wanted}', **context)
        mon.check([x[1] for x in actual if x[0] == 'hook'] == names, 'hooks', f'Hooks are {actual} instead of {names}', **context)
        if actual and names:
            mon.check(actual[0][0] == 'hook' or names[0] != 'soap-request', 'hook-order', f'Request hook does not come first: {actual}', **context)
            mon.check(actual[-1][0] == 'hook' or names[-1] != 'soap-response', 'hook-order', f'Response hook does not come last: {actual}', **context)
        logged = len(self.records)
        mon.event('logged', logged)
        if mon.check(logged == len(self.logged), 'logged', f'{logged} exceptions are logged instead of {len(self.logged)}', **context):
            for record, (exception, trace_wanted) in zip(self.records, self.logged):
                mon.check(bool(record.exc_info) == trace_wanted, 'logged-trace', f'Traceback is logged: {bool(record.exc_info)}', **context)
                try:
                    message = record.getMessage()
                except Exception as e:
                    mon.violation('logged-message', f'The record of {exception!r} cannot be formatted: {e!r}', **context)
                    continue
                mon.check(record.levelno >= logging.ERROR, 'logged-level', f'{record.levelname}', **context)
                if exception is not None:
                    mon.check(str(exception) in message, 'logged-message', f'{message!r} is logged for {exception!r}', **context)
                    mon.check(not trace_wanted or record.exc_info[1] is exception, 'logged-trace', f'Traceback of {record.exc_info}', **context)
        propagates = outcome.kind == 'raised' and not isinstance(outcome.obj, SOAPError)
        if propagates:
            mon.check(response is None, 'swallowed', f'{outcome.obj!r} does not reach the caller', **context)
            return
        self.judge(op, outcome, response, hooks, context)
        mon.sample(stack=self.kinds, trace=actual, response=response.http_content)

    def normal(self, event):
        """Objects the interpreter does not know by identity are compared by kind."""
        event = list(event)
        if len(event) == 4 and event[1] == 'raised':
            known = {id(v[0]) for k, v in self.plan.items() if k != 'handler'} | {id(self.plan['handler'][1])}
            if event[2] not in known:
                event[2] = 'fault'
        if len(event) == 4 and event[1] == 'returned' and isinstance(event[2], tuple):
            known = {id(v[0]) for k, v in self.plan.items() if k != 'handler'} | {id(self.plan['handler'][1])}
            known |= {id(v[0].soap_body) for k, v in self.plan.items() if k != 'handler' and isinstance(v[0], SOAPResponse)}
            if isinstance(self.plan['handler'][1], SOAPResponse):
                known.add(id(self.plan['handler'][1].soap_body))
            if event[2][1] not in known:
                event[2] = 'new-error'
        return tuple(event)

    def judge(self, op, outcome, response, hooks, context):
        mon, service = self.mon, self.service
        context['response'] = response.http_content
        if hooks.replaced is not None:
            mon.event('hook-replaced')
            mon.check(response is hooks.replaced, 'hook-ignored', 'What the response hook returned is not used', **context)
            return
        reply = svc.Reply(service.env, response.http_content)
        if not mon.check(reply.ok, 'reply', 'Reply is no envelope', **context):
            return
        body = outcome.obj
        content_type = [v for k, v in response.http_headers.items() if k.lower() == 'content-type']
        mon.check(content_type == [svc.CONTENT_TYPES[service.env]], 'content-type', f'Envelope has the type {content_type}', **context)
        if isinstance(body, SOAPResponse):
            for name, value in ({'X-Plan': 'p'} if 'X-Plan' in body.http_headers else {}).items():
                mon.check(response.http_headers.get(name) == value, 'headers', f'HTTP header {name} got lost', **context)
        for out, names in self.decorations.values():
            if out is outcome:
                for name in names:
                    mon.check(response.http_headers.get(name) == 'decorated', 'headers', f'HTTP header {name} of a middleware got lost', **context)
        fault = outcome.kind in ('raised', 'raised-fault', 'returned-fault', 'returned-new') or isinstance(body, SOAPError)
        if fault:
            mon.event('fault')
            if not mon.check(reply.fault is not None and response.http_status_code == 500, 'no-fault', f'Status {response.http_status_code}, no fault', **context):
                return
            code, message, _ = reply.parts()
            if outcome.kind == 'returned-new':
                mon.check(reply.code() in svc.SERVER[service.env] and type(body).__name__ in message, 'fault', f'Fault is {code} {message!r}', **context)
            elif body is None:
                mon.check(reply.code() in svc.CLIENT[service.env], 'fault', f'Fault is {code} {message!r}', **context)
            else:
                mon.check(message == body.message and code == str(getattr(body.code, 'value', body.code)), 'fault', f'Fault is {code} {message!r} instead of {body}', **context)
            return
        mon.event('success')
        status = body.http_status_code if isinstance(body, SOAPResponse) else 200
        mon.check(response.http_status_code == status, 'status', f'Status is {response.http_status_code} instead of {status}', **context)
        name = service.type_of(op.output).name
        tag = op.output_tag if self.called and self.prepared else name[0].lower() + name[1:]
        found = gen.compare_document(service.message(outcome.values, op.output, tag), reply.content)
        mon.check(not found, 'body', f'Reply differs from that of the outermost layer: {found[:3]}', **context)


class Hooks:
    """Hooks which write to the trace and may replace their object."""

    def __init__(self, mon, rng):
        self.mon, self.rng = mon, rng
        self.rng = rng
        self.names = [n for n in HOOKS if rng.random() < 0.5]
        self.modes = {n: rng.choice(['same', 'same', 'replace']) for n in self.names}
        self.replaced = None
        self.trace = None
        self.response = None

    def reset(self, world, request):
        self.world, self.request, self.replaced = world, request, None

    def hooks(self, dispatcher):
        return {n: disguise(self.rng, self.hook(n)) for n in self.names}

    def hook(self, name):
        def run(dispatcher, **kwargs):
            world, mon = self.world, self.mon
            world.trace.append(('hook', name))
            mon.event(name)
            mon.check(dispatcher is world.dispatcher, 'hook-dispatcher', f'{name} gets another dispatcher')
            request = kwargs['request']
            if name.endswith('request'):
                mon.check(set(kwargs) == {'request'} and request is self.request, 'hook-request', f'{name} gets {kwargs}')
                if self.modes[name] == 'replace':
                    new = SOAPRequest(request.environ, request.http_content)
                    world.request = self.request = new
                    return new
                return request
            response = kwargs['response']
            self.response = response
            mon.check(request is self.request, 'hook-request', f'{name} gets another request')
            mon.check(isinstance(response, SOAPResponse) and response.http_content is not None, 'hook-response', f'{name} gets {response!r}')
            if self.modes[name] == 'replace':
                self.replaced = SOAPResponse(None, http_content=b'<replaced/>', http_status_code=203, http_headers={'Content-Type': 'text/xml'})
                return self.replaced
            return response

        return run

    def expected_soap(self, outcome):
        propagates = outcome.kind == 'raised' and not isinstance(outcome.obj, SOAPError)
        return [n for n in ('soap-request', 'soap-response') if n in self.names and not (propagates and n == 'soap-response')]


def wrap(mon, rng, index):
    with svc.RandomService(rng, schemas=2, operations=2, headers=0.3) as service:
        world = World(mon, rng, service)
        hooks = Hooks(mon, rng)
        dispatcher = world.dispatcher = SOAPDispatcher(service.service, middlewares=world.stack(), hooks=hooks.hooks(None))
        for _ in range(3):
            op = rng.choice(service.ops)
            node = service.message(service.random_obj(rng, op.input), op.input)
            valid = True
            if rng.random() < 0.2:
                for _kind, changed in mutate.mutations(rng, node, {'unknown-element', 'wrong-namespace', 'missing-element'}):
                    node, valid = changed, False
                    break
            world.run(dispatcher, op, service.spell(rng, service.envelope(node), gen.PLAIN), valid, hooks)
        documents(mon, rng, service, world, dispatcher, hooks)


def documents(mon, rng, service, world, dispatcher, hooks):
    """Hooks of WSDL and XSD requests, which never see a middleware."""
    locations = [b.schema.location for b in service.built if b.schema.location and not any(b.schema is s for s in service.schemas)]
    for kind in ('wsdl', 'xsd'):
        query = 'wsdl' if kind == 'wsdl' else 'xsd=' + urllib.parse.quote(rng.choice(locations + ['nothing']))
        request = SOAPRequest(service.environ(rng, b'', None, method='GET', query=query), b'')
        world.trace = []
        world.request = request
        hooks.reset(world, request)
        response = dispatcher.dispatch(request)
        expected = [('hook', f'{kind}-{x}') for x in ('request', 'response') if f'{kind}-{x}' in hooks.names]
        mon.judged(query, expected, hooks.modes)
        mon.check(world.trace == expected, f'{kind}-hooks', f'Events are {world.trace} instead of {expected}')
        if hooks.replaced is not None:
            mon.event('hook-replaced')
            mon.check(response is hooks.replaced, 'hook-ignored', f'What the {kind} response hook returned is not used')
        else:
            mon.check(response.http_content != b'<replaced/>' and (f'{kind}-response' not in hooks.names or response is hooks.response), 'hook-ignored',
                      f'Response of the {kind} hook is not used')


def refuse(mon, rng, index):
    """Wrong names and wrong results of hooks."""
    with svc.RandomService(rng, schemas=1, operations=1, headers=0) as service:
        op = service.ops[0]
        content = service.spell(rng, service.envelope(service.message(service.random_obj(rng, op.input), op.input)), gen.PLAIN)
        out = service.instance(service.random_obj(rng, op.output), rng)
        service.behave = lambda call: out
        name = rng.choice(HOOKS)
        wrong = rng.choice([None, 'x', 5, {}, object(), SOAPRequest({}, b'') if name.endswith('response') else SOAPResponse(out), True, [], b'<a/>'])
        dispatcher = SOAPDispatcher(service.service, hooks={name: lambda **kwargs: wrong})
        for kind in ('soap', 'wsdl', 'xsd'):
            content_ = content if kind == 'soap' else b''
            environ = service.environ(rng, content_, op.action if kind == 'soap' else None, method='POST' if kind == 'soap' else 'GET',
                                      query={'soap': '', 'wsdl': 'wsdl', 'xsd': 'xsd=x'}[kind])
            mon.judged('refuse', name, kind, repr(wrong)[:20])
            service.calls.clear()
            if name.startswith(kind):
                mon.event('hook-refused')
                mon.raises(TypeError, 'wrong-hook-result', f'{name} returned {wrong!r}', dispatcher.dispatch, SOAPRequest(environ, content_))
                mon.check(not service.calls or name == 'soap-response', 'called', f'Handler called although {name} returned {wrong!r}')
            else:
                dispatcher.dispatch(SOAPRequest(environ, content_))
        bad = rng.choice(['soap', 'request', 'soap_request', 'SOAP-REQUEST', 'soap-request ', ' soap-request', 'soap-requests', 'xsd-responses', 'wsdl-', '', 'wsdl-request\n',
                          'html-request', 'soap-request-response', 'soaprequest', 'xwsdl-request', 'soap-req', 'xsd-'])
        mon.event('names')
        hooks = {n: (lambda **kwargs: None) for n in rng.sample(HOOKS, rng.randint(0, 3))}
        hooks[bad] = lambda **kwargs: None
        mon.raises(KeyError, 'unknown-hook-name', f'Hook name {bad!r}', SOAPDispatcher, service.service, hooks=hooks)


def amend(mon, rng, index):
    """What a hook or middleware puts into the request is what the rest of the stack gets, however often it is called."""
    with svc.RandomService(rng, schemas=2, operations=3, headers=0.3) as service:
        messages = []
        for _ in range(rng.randint(2, 4)):
            op = rng.choice(service.ops)
            obj, head = service.random_obj(rng, op.input), service.in_header(op)
            head = service.random_header(rng, head) if head and rng.random() < 0.6 else None
            content = service.spell(rng, service.envelope(service.message(obj, op.input), service.header_parts(head) if head else None), gen.PLAIN, 'utf-8')
            messages.append((op, obj, head, content, service.environ(rng, content, op.action), True))
        if rng.random() < 0.4:
            content = rng.choice([b'', b'<x/>', messages[0][3][:-9], messages[0][3].replace(b'Body', b'Boby')])
            messages.insert(rng.randint(0, len(messages)), (None, None, None, content, service.environ(rng, content, messages[0][0].action), False))
        first, last = messages[0], messages[-1]
        outs, seen, inputs = [], [], []

        def behave(call):
            outs.append(service.random_obj(rng, call.op.output))
            op, obj, head, *_ = [m for m in messages if m[5]][len(outs) - 1]
            found = ['another operation'] if op is not call.op else gen.differences(obj, call.body, parsed=True)
            if (head is None) != (call.header is None):
                found.append(f'header is {call.header!r}')
            elif head is not None:
                found += gen.differences(head, call.header, parsed=True)
            inputs.append(found)
            return service.instance(outs[-1], rng)

        def put(request, message):
            request.environ, request.http_content = message[4], message[3]

        def middleware(request, next_call):
            for message in messages:
                put(request, message)
                try:
                    response = next_call(request)
                except SOAPError as e:
                    response = e
                seen.append((message, response, request.method, request.soap_body, request.soap_header))
                if rng.random() < 0.3 and not isinstance(response, SOAPError):
                    # Changes of the request do not reach the next attempt.
                    for name in vars(request.soap_body):
                        if not name.startswith('_'):
                            vars(request.soap_body)[name] = None
            return response

        def middle(request, next_call):
            return next_call(request)

        service.behave = behave
        stack = [middleware] + [middle] * rng.randint(0, 2)
        rng.shuffle(stack)
        hooks = {}
        if rng.random() < 0.5:
            # Instead of the middleware.
            stack.remove(middleware)
            messages = [last]
            before = rng.random() < 0.5

            def hook(dispatcher, request):
                if before:
                    return SOAPRequest(last[4], last[3])
                put(request, last)
                return request

            hooks['soap-request'] = hook
        dispatcher = SOAPDispatcher(service.service, middlewares=stack, hooks=hooks)
        request = SOAPRequest(first[4], first[3])
        response = dispatcher.dispatch(request)
        good = [m for m in messages if m[5]]
        context = {'messages': [m[3] for m in messages], 'service': service, 'response': response.http_content}
        mon.event('amended')
        mon.event('attempts', len(messages))
        mon.judged('amend', [m[3] for m in messages])
        if not mon.check([c.op for c in service.calls] == [m[0] for m in good], 'amended-calls', f'Operations called are {[c.op for c in service.calls]} instead of {[m[0] for m in good]}', **context):
            return
        for (op, *_), found in zip(good, inputs):
            mon.check(not found, 'amended-body', f'Handler of {op} got other values: {found[:3]}', **context)
        for (op, obj, head, content, _, valid), result, method, body, header in seen:
            if not valid:
                mon.check(isinstance(result, SOAPError), 'amended-invalid', f'Invalid request gives {result!r}', **context)
                continue
            mon.check(isinstance(result, SOAPResponse) and method is not None and method.operationName == op.name, 'amended-method', f'Result of {op} is {result!r} of {method and method.operationName}', **context)
        reply = svc.Reply(service.env, response.http_content)
        if last[5]:
            found = ['fault'] if not reply.ok or reply.fault is not None else gen.compare_document(service.message(outs[-1], last[0].output, last[0].output_tag), reply.content)
            mon.check(not found, 'amended-reply', f'The last attempt is answered by something else: {found[:3]}', **context)
        else:
            mon.check(reply.ok and reply.fault is not None and reply.code() in svc.CLIENT[service.env], 'amended-reply', 'Invalid last attempt gets no fault', **context)


def wsgi(mon, rng, index):
    """What the outermost layer returned is what the client receives."""
    with svc.RandomService(rng, schemas=1, operations=1, headers=0) as service:
        op = service.ops[0]
        content = service.spell(rng, service.envelope(service.message(service.random_obj(rng, op.input), op.input)), gen.PLAIN)
        inner, outer = service.random_obj(rng, op.output), service.random_obj(rng, op.output)
        service.behave = lambda call: service.instance(inner, rng)
        status, headers = rng.choice([200, 202, 201, 299]), {'X-Answer': str(rng.randint(0, 99))}

        def replace(request, next_call):
            next_call(request)
            return SOAPResponse(service.instance(outer, rng), http_status_code=status, http_headers=dict(headers))

        app = WsgiSoapApplication(SOAPDispatcher(service.service, middlewares=[replace]))
        environ = service.environ(rng, content, op.action)
        seen = []
        data = b''.join(app(environ, lambda s, h, e=None: seen.append((s, dict(h)))))
        mon.judged('wsgi', content, status)
        mon.event('replace')
        mon.check(len(seen) == 1 and seen[0][0].startswith(str(status)), 'wsgi-status', f'Client receives {seen} instead of {status}')
        mon.check(seen[0][1].get('X-Answer') == headers['X-Answer'], 'wsgi-headers', f'Client receives headers {seen[0][1]}')
        found = gen.compare_document(service.message(outer, op.output, op.output_tag), svc.Reply(service.env, data).content)
        mon.check(not found, 'wsgi-body', f'Client receives another body: {found[:3]}')


def groups(tier):
    n = 40 if tier == 'thorough' else 2
    return [Group('wrap', wrap, 2500 * n), Group('refuse', refuse, 300 * n), Group('amend', amend, 300 * n), Group('wsgi', wsgi, 200 * n)]
