"""C17: concurrent requests and separate objects never affect each other."""
import random
import traceback

from lxml import etree

from soapfish import py2wsdl, py2xsd, soap, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.middlewares import ExceptionToSoapFault
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
from vf import gen, loop, mutate, sched, svc
from vf.core import Group

PROPERTY = 'C17'
RULE = ('A case runs requests, calls or operations on models in interleaved threads, or a history of operations next to bystanders, and '
        'compares with what happens alone; non-trivial and distinct by interleaving (hash of all switches) and input.')
REQUIRED = {'interleavings': 800, 'switches': 8000, 'concurrent-requests': 2000, 'handled': 1000, 'concurrent-calls': 500, 'concurrent-models': 800, 'operations': 3500,
            'bystanders': 15000, 'concurrent-generators': 300, 'second-service': 80, 'concurrent-validations': 10000, 'spoiled': 150, 'soap-fault': 200, 'document': 200}


def run(mon, rng, tasks, lines=True):
    """Run tasks interleaved, returns [(result, exception)]."""
    if not lines or rng.random() < 0.15:
        mon.event('stress')
        results = sched.stress(tasks)
        mon.judged('stress', mon.case)
    else:
        hot = rng.choice([None, 11, 101])
        interleaver = sched.Interleaver(rng, rng.choice([0, 0.003, 0.01, 0.03] if hot else [0.003, 0.01, 0.03, 0.1, 0.3]), hot and (hot, rng.randrange(hot)))
        results = interleaver.run(tasks)
        mon.event('interleavings')
        mon.event('switches', interleaver.switches)
        mon.event('stolen-turns', interleaver.stolen)
        mon.judged(interleaver.id(), mon.case)
    for value, error in results:
        if error is not None and not isinstance(error, Exception):
            raise error
    return results


class Script:
    """What the handler of one request does, and what it has seen."""

    def __init__(self, name, op, obj, head):
        self.name, self.op, self.obj, self.head = name, op, obj, head
        self.calls, self.trace, self.wrong = 0, [], []
        self.pause = lambda: None


def dispatch(mon, rng, index):
    with svc.RandomService(rng, schemas=2, operations=3, headers=0.4) as service:
        scripts = {}

        def behave(call):
            script = scripts[call.request.environ['vf.id']]
            script.calls += 1
            script.pause()
            if call.op is not script.op:
                script.wrong.append(f'operation {call.op.name}')
            script.wrong += gen.differences(script.obj, call.body, parsed=True)
            if script.head:
                script.wrong += gen.differences(script.head, call.header, parsed=True) if call.header is not None else ['no header']
            elif call.header is not None:
                script.wrong.append('a header')
            local = random.Random(script.name)
            script.pause()
            if local.random() < failing:
                raise SOAPError(service.soap.Code.SERVER, f'failed {script.name}', f'urn:actor-{script.name}')
            if local.random() < crashing:
                raise local.choice([ValueError, KeyError, RuntimeError])(f'crashed {script.name}')
            value = service.instance(service.random_obj(local, script.op.output), local)
            out = service.out_header(script.op)
            head = service.instance(service.random_header(local, out), local) if out and local.random() < 0.5 else None
            if call.request.environ['vf.id'] != script.name or call.request.soap_body is not call.body:
                script.wrong.append('request changed while it was handled')
            return SOAPResponse(value, soap_header=head, http_status_code=local.choice([200, 200, 202]), http_headers=shared if local.random() < 0.5 else {'X-Handler': script.name})

        shared = {'X-Shared': 'yes'}
        # In some services most requests fail at the same time.
        failing, crashing = rng.choice([(0.2, 0.1), (0.2, 0.1), (0.1, 0.9), (0.8, 0.5)])

        def layer(number):
            def middleware(request, next_call):
                script = scripts[request.environ['vf.id']]
                script.trace.append(('before', number))
                script.pause()
                try:
                    response = next_call(request)
                except BaseException:
                    script.trace.append(('raised', number))
                    raise
                script.trace.append(('after', number))
                if isinstance(response, SOAPResponse):
                    response.http_headers[f'X-Layer-{number}'] = script.name
                return response
            return middleware

        def request_hook(dispatcher, request):
            scripts[request.environ['vf.id']].trace.append('request-hook')
            return request

        def response_hook(dispatcher, request, response):
            scripts[request.environ['vf.id']].trace.append('response-hook')
            response.http_headers['X-Hook'] = request.environ['vf.id']
            return response

        kwargs = {'middlewares': [ExceptionToSoapFault()] + [layer(i) for i in range(rng.randint(0, 3))],
                  'hooks': {'soap-request': request_hook, 'soap-response': response_hook, 'wsdl-request': request_hook, 'xsd-response': response_hook}}
        if rng.random() < 0.5:
            kwargs['middlewares'].append(kwargs['middlewares'].pop(0))
            kwargs['middlewares'].insert(0, ExceptionToSoapFault(traceback=False))
        service.behave = behave
        requests = []
        for i in range(rng.randint(2, 4)):
            requests.append([prepare(mon, rng, service, scripts, f'{i}.{j}') for j in range(rng.randint(1, 2))])
        alone = {}
        for name, environ, content in [r for rs in requests for r in rs]:
            alone[name] = send(SOAPDispatcher(service.service, **kwargs), environ, content)
        expected = {name: (s.calls, list(s.trace)) for name, s in scripts.items()}
        for s in scripts.values():
            s.calls, s.trace = 0, []
            found = s.wrong
            mon.check(not found, 'alone', f'Handler gets other values: {found[:3]}', service=service)
        dispatcher = SOAPDispatcher(service.service, **kwargs)
        app = WsgiSoapApplication(dispatcher) if rng.random() < 0.3 else None
        task = lambda rs: lambda: [send(dispatcher, environ, content, app) for _, environ, content in rs]
        context = {'service': service, 'requests': requests}
        for _ in range(rng.choice([1, 4, 8])):
            for s in scripts.values():
                s.calls, s.trace, s.wrong = 0, [], []
            results = run(mon, rng, [task(rs) for rs in requests])
            for rs, (answers, error) in zip(requests, results):
                if not mon.check(error is None, 'raised', f'A concurrent request raises {error!r}', trace=''.join(traceback.format_exception(error)), **context):
                    return
                for (name, environ, content), answer in zip(rs, answers):
                    mon.event('concurrent-requests')
                    mon.event('soap-fault' if alone[name][0] == 500 else 'document' if environ['REQUEST_METHOD'] == 'GET' else 'success')
                    good = mon.check(answer == alone[name], 'response', f'Concurrent request gives {answer} instead of {alone[name]}', **context)
                    script = scripts[name]
                    mon.event('handled', script.calls)
                    good &= mon.check(script.calls == expected[name][0], 'calls', f'Handler is called {script.calls} instead of {expected[name][0]} times', **context)
                    good &= mon.check(not script.wrong, 'mixed-input', f'Handler gets values of another request: {script.wrong[:3]}', **context)
                    good &= mon.check(script.trace == expected[name][1], 'trace', f'Layers see {script.trace} instead of {expected[name][1]}', **context)
                    if not good:
                        return
        mon.check(shared == {'X-Shared': 'yes'}, 'shared-headers', f'Headers of a handler are changed: {shared}')


def prepare(mon, rng, service, scripts, name):
    op = rng.choice(service.ops)
    roll = rng.random()
    if roll < 0.12:
        scripts[name] = Script(name, None, None, None)
        locations = [b.schema.location for b in service.built if b.schema.location] + ['x']
        environ = service.environ(rng, b'', None, method='GET', query=rng.choice(['wsdl', 'xsd=' + rng.choice(locations)]), HTTP_HOST=f'h{name}.example', **{'vf.id': name})
        return name, environ, b''
    obj = service.random_obj(rng, op.input)
    head = service.in_header(op)
    head = service.random_header(rng, head) if head and rng.random() < 0.6 else None
    node = service.message(obj, op.input)
    if roll < 0.3:
        node = next((changed for _, changed in mutate.mutations(rng, node)), node)
    content = service.spell(rng, service.envelope(node, service.header_parts(head) if head else None), svc.XML_PLAIN)
    scripts[name] = Script(name, op, obj, head)
    action = None if service.dispatched_by_root(op) and rng.random() < 0.4 else op.action
    return name, service.environ(rng, content, action, **{'vf.id': name}), content


def send(dispatcher, environ, content, app=None):
    import io
    environ = {**environ, 'wsgi.input': io.BytesIO(content)}
    if app:
        seen = []
        data = b''.join(app(environ, lambda status, headers, exc_info=None: seen.append((int(status[:3]), dict(headers)))))
        return (*seen[0], data)
    response = dispatcher.dispatch(SOAPRequest(environ, content))
    data = response.http_content
    return response.http_status_code, dict(response.http_headers), data.encode() if isinstance(data, str) else data


def stub(mon, rng, index):
    """Calls through shared and separate stubs over HTTP."""
    server = loop.Server.get()
    with svc.RandomService(rng, schemas=2, operations=3, headers=0.4, class_inputs=False) as service:
        def behave(call):
            local = random.Random(call.request.http_content)
            if local.random() < 0.2:
                raise SOAPError(service.soap.Code.SERVER, f'failed {local.random()}')
            value = service.instance(service.random_obj(local, call.op.output), local)
            out = service.out_header(call.op)
            return SOAPResponse(value, soap_header=service.instance(service.random_header(local, out), local)) if out and local.random() < 0.5 else value

        service.behave = behave
        server.answer = loop.serve_wsgi(WsgiSoapApplication(SOAPDispatcher(service.service)))
        make = lambda user: soap.Stub(service=service.service, location=f'http://{server.host}/', username=user, password='x')
        stubs = [make(None), make('a')][:rng.randint(1, 2)]
        calls = []
        for i in range(rng.randint(2, 4)):
            calls.append([])
            for _ in range(rng.randint(1, 2)):
                op = rng.choice(service.ops)
                head = service.in_header(op)
                head = service.instance(service.random_header(rng, head), rng) if head and rng.random() < 0.7 else None
                calls[-1].append((rng.choice(stubs), op.name, service.instance(service.random_obj(rng, op.input), rng), head))

        def perform(stub, name, parameter, header):
            try:
                response = stub.call(name, parameter, header=header)
            except SOAPError as e:
                return 'error', e.code, e.message, e.actor
            except Exception as e:
                if server.errors:
                    raise server.errors[0]
                return 'exception', repr(e)
            return 'value', response.soap_body.xml('x'), response.soap_header and response.soap_header.xml('x')

        alone = [[perform(*c) for c in cs] for cs in calls]
        sent = sorted((e.content, str(e.headers.get('Authorization'))) for e in server.exchanges)
        server.exchanges.clear()
        service.calls.clear()
        results = run(mon, rng, [lambda cs=cs: [perform(*c) for c in cs] for cs in calls], lines=rng.random() < 0.5)
        context = {'service': service, 'calls': calls}
        for cs, before, (after, error) in zip(calls, alone, results):
            if error is not None:
                raise error
            mon.event('concurrent-calls', len(cs))
            mon.check(before == after, 'call', f'Concurrent calls give {after} instead of {before}', **context)
        again = sorted((e.content, str(e.headers.get('Authorization'))) for e in server.exchanges)
        mon.check(again == sent, 'sent', 'Concurrent calls send other requests', **context)


def models(mon, rng, index):
    """First and later uses of the same classes in several threads."""
    options = gen.Options(string_ref=0.6, tns=0.3, default=0.2, recursive=0.3)
    model = gen.random_model(rng, options)
    with gen.Built(model, rng, register=rng.random() < 0.4) as built:
        work = []
        for i in range(rng.randint(2, 4)):
            obj = gen.random_obj(rng, model.root, options)
            document = gen.document(obj, 'root', model.tns, model.efd)
            work.append((obj, document, gen.spell(rng, document, gen.PLAIN), rng.random(), rng.random() < 0.5))

        def task(obj, document, content, seed, parse_first):
            local = random.Random(seed)
            found = []

            def parse(xml):
                found.extend(gen.differences(obj, built.root.parsexml(xml), parsed=True))

            def build():
                instance = built.instance(obj, local)
                found.extend(gen.differences(obj, instance))
                return instance.xml('root', namespace=model.tns, elementFormDefault=model.efd)

            if parse_first:
                parse(content)
            xml = build()
            if not parse_first:
                parse(content)
            parse(xml)
            return found, xml

        results = run(mon, rng, [lambda w=w: task(*w) for w in work])
        for w, (value, error) in zip(work, results):
            mon.event('concurrent-models')
            context = {'model': model, 'values': w[0]}
            if mon.check(error is None, 'model-raised', f'Concurrent use of a class raises {error!r}', trace=''.join(traceback.format_exception(error)), **context):
                found, xml = value
                mon.check(not found, 'model-values', f'Concurrent use of a class gives other values: {found[:3]}', **context)
                again = task(*w)[1]
                mon.check(again == xml, 'model-xml', 'Concurrent use of a class gives another document', concurrent=xml, alone=again, **context)


def validation(mon, rng, index):
    """Documents parsed and rendered with one compiled schema: what is wrong with one of them is told for this one only."""
    class Data(xsd.ComplexType):
        numbers = xsd.ListElement(xsd.Int, 'number', minOccurs=rng.randint(0, 2))
        texts = xsd.ListElement(xsd.String, 'text')

    tns = f'urn:{rng.randrange(1000)}'
    schema = xsd.Schema(tns, complexTypes=[Data], elements={'data': xsd.Element(Data)}, elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
    compiled = py2xsd.compile_schemas([schema])

    def scenario(i):
        name = f'thread-{i}'
        data = Data()
        data.numbers.extend(rng.randrange(100) for _ in range(rng.randint(2, 4)))
        data.texts.extend(name for _ in range(rng.choice([0, 1, 20])))
        text = data.xml('data', namespace=tns, elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
        kind = rng.choice(['valid', 'root', 'root', 'value', 'extra'])
        if kind == 'value':
            text = text.replace(b'number>', b'number>%s-' % name.encode(), 1)
        elif kind == 'extra':
            text = text.replace(b'</data>', b'<%s/></data>' % name.encode()).replace(b'</ns0:data>', b'<%s/></ns0:data>' % name.encode())
        elif kind == 'root':
            text = text.replace(b'data', name.encode())
        parse = kind in ('value', 'extra') or rng.random() < 0.3
        tag = name if kind == 'root' else 'data'

        def once():
            try:
                if parse:
                    found = Data.parsexml(text, schema=compiled)
                    return list(found.numbers), list(found.texts)
                return data.xml(tag, namespace=tns, elementFormDefault=xsd.ElementFormDefault.QUALIFIED, schema=compiled)
            except (etree.XMLSyntaxError, etree.DocumentInvalid) as e:
                return type(e), str(e)

        return kind, once

    scenarios = [scenario(i) for i in range(rng.randint(2, 4))]
    alone = [once() for _, once in scenarios]
    for (kind, _), result in zip(scenarios, alone):
        mon.check((kind != 'valid') == (isinstance(result[0], type)), 'validation-alone', f'A document ({kind}) gives {result}')
    rounds = 150
    results = sched.stress([lambda once=once: [once() for _ in range(rounds)] for _, once in scenarios])
    for (kind, _), expected, (values, error) in zip(scenarios, alone, results):
        mon.event('concurrent-validations', rounds)
        if mon.check(error is None, 'validation-raised', f'Concurrent validation raises {error!r}'):
            wrong = [v for v in values if v != expected]
            mon.check(not wrong, 'validation', f'A document ({kind}) gives {wrong[:1]} instead of {expected} while others are validated', count=len(wrong))
    mon.judged('validation', mon.case)


def generators(mon, rng, index):
    """Documents generated at the same time."""
    with svc.RandomService(rng, schemas=3) as one, svc.RandomService(rng, schemas=2) as two:
        def wsdl(service):
            return etree.tostring(py2wsdl.generate_wsdl(service.service))

        def schema(service):
            return [etree.tostring(py2xsd.generate_xsd(b.schema)) for b in service.built]

        def validator(service):
            # The validator is shared. It is not built here: lxml can not compile schemas with resolvers in several threads.
            validate = validators[id(service)]
            found = []
            for content in messages[id(service)]:
                try:
                    validate(etree.fromstring(content))
                    found.append('valid')
                except etree.DocumentInvalid as e:
                    found.append(str(e))
            return found

        validators = {id(s): py2xsd.schema_validator(s.service.schemas) for s in (one, two)}
        messages = {}
        for service in (one, two):
            messages[id(service)] = []
            for _ in range(2):
                op = rng.choice(service.ops)
                node = service.message(service.random_obj(rng, op.input), op.input)
                if rng.random() < 0.4:
                    node = next((changed for _, changed in mutate.mutations(rng, node)), node)
                messages[id(service)].append(gen.plain(node))
        work = [(rng.choice([wsdl, schema, validator, validator]), rng.choice([one, one, two])) for _ in range(rng.randint(2, 4))]
        alone = [f(s) for f, s in work]
        results = run(mon, rng, [lambda f=f, s=s: f(s) for f, s in work])
        for (f, s), before, (after, error) in zip(work, alone, results):
            mon.event('concurrent-generators')
            if mon.check(error is None, 'generator-raised', f'{f.__name__} raises {error!r}', trace=''.join(traceback.format_exception(error)), service=s):
                mon.check(before == after, 'generator', f'{f.__name__} gives something else concurrently: {after!r}', alone=before, service=s)


# --- Bystanders --------------------------------------------------------------
def parts(obj, instance):
    """All (Obj, instance) of an instance, through elements, lists and groups."""
    yield obj, instance
    for field in obj.type.all_fields():
        expected, actual = obj.values[field.py], getattr(instance, field.py)
        pairs = zip(expected, actual) if field.kind == 'list' else [(expected, actual)]
        for e, a in pairs:
            if isinstance(e, gen.Obj) and isinstance(a, xsd.ComplexType):
                yield from parts(e, a)


def disturb(rng, built, options, obj, instance):
    """Change an instance in a random way."""
    _, victim = rng.choice(list(parts(obj, instance)))
    cls = next(c for c in built.model.complexes + built.model.groups if built.classes[c.name] is type(victim))
    field = rng.choice(cls.all_fields())
    fresh = gen.random_obj(rng, cls, options)
    value = fresh.values[field.py]
    concrete = lambda v: built.instance(v, rng) if isinstance(v, gen.Obj) else v
    kind = rng.choice(['set', 'set', 'refuse', 'none', 'reuse', 'render'])
    if kind == 'render':
        try:
            rng.choice([lambda: victim.xml('y'), lambda: str(victim), lambda: victim == victim, lambda: hash(victim)])()
        except Exception:  # noqa: BLE001
            pass  # Some operations break it (a replaced list takes any item); only the others are judged.
        return
    current = getattr(victim, field.py)
    if field.kind == 'list':
        op = rng.choice(['append', 'append', 'clear', 'pop', 'reverse', 'insert', 'extend', 'delete', 'replace', 'refuse'])
        try:
            if op == 'append':
                for v in value:
                    current.append(concrete(v))
            elif op == 'insert':
                current[:0] = [concrete(v) for v in value[:1]]
            elif op == 'extend':
                current.extend([concrete(v) for v in value])
            elif op == 'delete':
                del current[:1]
            elif op == 'replace':
                setattr(victim, field.py, [concrete(v) for v in value])
            elif op == 'refuse':
                current.append(object())
            elif op == 'pop':
                current and current.pop()
            else:
                getattr(current, op)()
        except ValueError:
            pass
        return
    try:
        if kind == 'refuse':
            setattr(victim, field.py, object())
        elif kind == 'none':
            setattr(victim, field.py, None)
        elif value is not None:
            setattr(victim, field.py, concrete(value))
    except ValueError:
        pass


def isolation(mon, rng, index):
    options = gen.Options(default=0.2, group=0.35, attribute_group=0.3, lists=0.35, inherit=0.4, complex=0.5)
    model = gen.random_model(rng, options)
    with gen.Built(model, rng, register=rng.random() < 0.7) as built:
        root = built.root
        tag = {'tagname': 'root', 'namespace': model.tns, 'elementFormDefault': model.efd}
        objs = [gen.random_obj(rng, model.root, options) for _ in range(3)]
        bystanders = [(o, built.instance(o, rng), False) for o in objs]
        content = gen.plain(gen.document(objs[0], 'root', model.tns, model.efd))
        element = etree.fromstring(content)
        bystanders.append((objs[0], root.parsexml(content), True))
        bystanders.append((objs[0], root.parse_xmlelement(element), True))
        snapshots = [i.xml(**tag) for _, i, _ in bystanders]
        empty = {c: fresh_state(cls) for c, cls in built.classes.items() if issubclass(cls, xsd.ComplexType)}
        schema = built.schema and etree.tostring(py2xsd.generate_xsd(built.schema))

        def victim():
            """Something with the same values or classes as the bystanders."""
            obj = rng.choice(objs + [gen.random_obj(rng, model.root, options)])
            roll = rng.random()
            if roll < 0.3:
                return objs[0], root.parsexml(content)
            if roll < 0.5:
                return objs[0], root.parse_xmlelement(element)
            return obj, built.instance(obj, rng)

        obj, target = victim()
        for _ in range(rng.randint(5, 12)):
            if rng.random() < 0.2:
                obj, target = victim()
            roll = rng.random()
            mon.event('operations')
            if roll < 0.85:
                disturb(rng, built, options, obj, target)
            elif roll < 0.9:
                # A subclass with further fields.
                name = rng.choice(list(empty))
                type('Derived', (built.classes[name],), {'zz': xsd.Element(xsd.String, minOccurs=0), rng.choice(['name', 'extra']): xsd.Attribute(xsd.Int, use='optional')})()
            elif roll < 0.95:
                try:
                    root.parsexml(rng.choice([b'<x/>', content[:-3], b'<root><a>x</a></root>', content.replace('>', '>x')]))
                except (ValueError, etree.XMLSyntaxError):
                    pass
            else:
                with gen.Built(gen.random_model(rng, options), rng) as other:
                    other.root()
            for n, ((o, instance, parsed), snapshot) in enumerate(zip(bystanders, snapshots)):
                mon.event('bystanders')
                context = {'model': model, 'values': o}
                found = gen.differences(o, instance, parsed=parsed)
                if not mon.check(not found, 'bystander', f'An instance is changed by operations on another one: {found[:3]}', **context):
                    return
                if not mon.check(instance.xml(**tag) == snapshot, 'bystander-xml', 'The document of an instance is changed by operations on another one', before=snapshot, **context):
                    return
        mon.judged(repr(model)[:200], content)
        for name, state in empty.items():
            after = fresh_state(built.classes[name])
            mon.check(after == state, 'fresh', f'A new {name} is {after} instead of {state}', model=model)
        mon.check(etree.tostring(etree.fromstring(content)) == etree.tostring(element), 'document', 'The parsed document is changed', content=content)
        if schema:
            mon.check(etree.tostring(py2xsd.generate_xsd(built.schema)) == schema, 'schema', 'The XSD is changed by operations on instances', model=model)


def fresh_state(cls):
    """Values of a new instance."""
    instance = cls()
    names = sorted(n for n in dir(cls) if isinstance(getattr(cls, n), xsd.Element))
    return [(n, type(getattr(instance, n)).__name__, list(v) if isinstance(v, list) else fresh_state(type(v)) if isinstance(v, xsd.ComplexType) else repr(v))
            for n in names for v in [getattr(instance, n)]]


def services(mon, rng, index):
    """A service gives the same answers whatever else there is."""
    with svc.RandomService(rng, schemas=2, headers=0.4) as one:
        seed = rng.random()

        def behave(call):
            # A handler may do what it likes with its request.
            script = scripts.get(call.request.environ.get('vf.id'))
            if script and call.op is script.op:
                found = gen.differences(script.obj, call.body, parsed=True)
                if script.head:
                    found += gen.differences(script.head, call.header, parsed=True)
                mon.check(not found, 'service-input', f'A handler gets other values after earlier requests: {found[:3]}', service=one)
                mon.event('spoiled')
                for obj, instance in list(parts(script.obj, call.body)):
                    for field in obj.type.all_fields():
                        if field.kind == 'list':
                            getattr(instance, field.py).clear()
                        elif field.kind == 'element':
                            setattr(instance, field.py, None)
                if call.header is not None:
                    for field in script.head.type.all_fields():
                        field.kind == 'element' and setattr(call.header, field.py, None)
            local = random.Random(f'{seed}{call.op.name}')
            return one.instance(one.random_obj(local, call.op.output), local)

        one.behave = behave
        dispatcher = SOAPDispatcher(one.service)
        scripts = {}
        requests = [prepare(mon, rng, one, scripts, str(i)) for i in range(3)]
        before = [send(dispatcher, e, c) for _, e, c in requests]
        documents = dispatcher.wsdl, dict(dispatcher.xsds)
        for _ in range(2):
            mon.event('second-service')
            with svc.RandomService(rng, schemas=2, headers=0.4, version=rng.choice([one.soap, None])) as two:
                two.behave = lambda call: two.instance(two.random_obj(rng, call.op.output), rng)
                other = SOAPDispatcher(two.service, **rng.choice([{}, {'middlewares': [ExceptionToSoapFault()]}, {'strict_soap_header': False}]))
                other.middlewares.append(ExceptionToSoapFault())
                other.hooks['soap-response'] = lambda dispatcher, request, response: response
                for _ in range(2):
                    _, e, c = prepare(mon, rng, two, {}, 'x')
                    send(other, e, c)
                # The same service again, otherwise configured.
                twin = SOAPDispatcher(one.service)
                twin.middlewares.append(lambda request, next_call: SOAPError(one.soap.Code.SERVER, 'twin'))
                twin.hooks['wsdl-response'] = lambda dispatcher, request, response: SOAPResponse('x', http_content='twin')
                send(twin, *requests[0][1:])
            for (_, e, c), old in zip(requests, before):
                new = send(dispatcher, e, c)
                mon.judged('service', c, e['QUERY_STRING'])
                mon.check(new == old, 'service', f'A service answers {new} instead of {old} after another one was used', service=one)
        mon.check((dispatcher.wsdl, dict(dispatcher.xsds)) == documents, 'documents', 'Documents of a service are changed', service=one)


def groups(tier):
    n = 20 if tier == 'thorough' else 1
    return [Group('dispatch', dispatch, 500 * n), Group('stub', stub, 120 * n), Group('models', models, 400 * n), Group('validation', validation, 60 * n), Group('generators', generators, 150 * n),
            Group('isolation', isolation, 500 * n), Group('services', services, 60 * n)]
