"""Random services with handlers which record every call, and the requests they should answer."""
import io
import itertools
import threading

from lxml import etree

from soapfish import soap, soap11, soap12, wsa, xsd
from soapfish.core import SOAPRequest

from . import gen
from .core import Malformed

STRICT = dict(gen.WILD, unknown=0, nilfalse=0)
XML_PLAIN = dict(gen.PLAIN, comments=0)
S11, S12 = 'http://schemas.xmlsoap.org/soap/envelope/', 'http://www.w3.org/2003/05/soap-envelope'
WSA = 'http://www.w3.org/2005/08/addressing'
CONTENT_TYPES = {S11: 'text/xml', S12: 'application/soap+xml'}
CLIENT = {S11: ['Client'], S12: ['Sender']}
SERVER = {S11: ['Server'], S12: ['Receiver']}
OPERATIONS = ['getFlight', 'getFlights', 'PutFlight', 'get', 'Get', 'list', 'ListAll', 'delete-all', 'x.y', 'ping', 'Ping', 'sum_of',
              'class', 'import', 'search', 'Search2', 'opération', 'call', 'location', 'soap', 'xsd', 'wsa', 'SERVICE', 'username', '__init__', 'request',
              'Person', 'Order', 'Code', 'Report']
ELEMENTS = ['Request', 'request', 'Reply', 'reply2', 'flight-plan', 'x.y', '\xe9l\xe9ment', 'op', 'type', 'class', 'getFlight', 'Item',
            'GetFlightResponse', 'header', 'Header1', 'body', 'Session', 'token', 'a', 'ab', 'aB', 'Order', 'order-2', 'ping']
ACTIONS = ['urn:a', 'urn:a/b', 'urn:a#b', 'http://x.example/op?x=1&y=2', 'get', 'Get', 'urn:a b', "urn:'q'", 'urn:A', 'a;b', 'x=y', 'urn:(c)',
           'urn:a,b', '/', '#', 'urn:a/', 'http://x.example/op', 'urn:a%20b', 'urn:a/b/c']
ENCODINGS = ['utf-8', 'utf-8', 'utf-8', 'bare', 'bare', 'utf-16', 'iso-8859-1', 'us-ascii', 'utf-8-sig']
TNS = ['urn:one', 'http://example.com/two?x=1&y=2', 'urn:one:more', 'urn:three', 'urn:ONE', 'urn:one:']


class Op:
    def __init__(self, name, action, input, output):
        self.name, self.action, self.input, self.output = name, action, input, output
        self.input_header = self.output_header = None  # Complex
        self.style = 'document'
        self.input_class = self.output_class = False  # Declared by a class instead of an element.
        self.output_tag = output

    def __repr__(self):
        return f'{self.name}({self.input} -> {self.output}, action={self.action!r})'


class Call:
    def __init__(self, op, request, body):
        self.op, self.request, self.body, self.header = op, request, body, request.soap_header
        self.thread = threading.get_ident()


def schema_options(**kwargs):
    return gen.Options(**{**dict(tns=1, two_tns=0, override=0, group=0, attribute_group=0, narrow=True, max_types=3), **kwargs})


class RandomService:
    """A service of random operations: the elements, their types and the soapfish objects built from them."""

    def __init__(self, rng, version=None, headers=0.4, schemas=3, operations=4, options=None, wsa_=0.0, nested=0.5, shared=0.15,
                 substitution=0.25, service_header=0.15, location=None, simple_elements=0.3, same_tns=0.5, class_types=0.1, class_inputs=True,
                 locations=(), without_action=0.08):
        self.rng, self.locations = rng, list(locations)
        self.options = options or schema_options()
        self.soap = version or rng.choice([soap11, soap12])
        self.env = S11 if self.soap is soap11 else S12
        self.soap_name = 'soap11' if self.soap is soap11 else 'soap12'
        self.models, self.built, self.owner = [], [], {}
        self.calls = []
        self.lock = threading.Lock()
        self.behave = None
        names = rng.sample(ELEMENTS, len(ELEMENTS))
        tns = rng.sample(TNS, len(TNS))
        for i in range(rng.randint(1, schemas)):
            # Type names have to be unique in case schemas share their namespace.
            options = self.options
            options.prefix = rng.choice([['Y', 'Z'], ['Sns', 'SnsX']])[i - 1] if i else ''
            model = gen.random_model(rng, options)
            options.prefix = ''
            included = i and rng.random() < same_tns / 2
            model.tns = self.models[0].tns if included else tns.pop()
            for c in model.groups + model.complexes:
                c.tns = model.tns
            for cls in rng.sample(model.complexes, rng.randint(1, len(model.complexes))):
                model.elements[names.pop()] = cls
            if not any(t is model.root for t in model.elements.values()):
                model.elements[names.pop()] = model.root
            if rng.random() < simple_elements:
                model.elements[names.pop()] = rng.choice(model.simples + [gen.Simple('string'), gen.Simple('int')])
            used = {f.type for c in model.complexes for f in c.all_fields()} | {c.base for c in model.complexes}
            free = [c for c in model.complexes if c not in used and list(model.elements.values()).count(c) == 1]
            if free and rng.random() < 0.4:
                rng.choice(free).anonymous = True
            for name, cls in list(model.elements.items()):
                if isinstance(cls, gen.Complex) and not cls.anonymous and rng.random() < substitution and len(names) > 8:
                    member = names.pop()
                    model.elements[member] = cls
                    model.heads[member] = name
                    if rng.random() < 0.3 and len(names) > 8:
                        # A member might be a head itself.
                        further = names.pop()
                        model.elements[further] = cls
                        model.heads[further] = member
            self.models.append(model)
            for name in model.elements:
                self.owner[name] = model
        usable = [n for m in self.models for n, t in m.elements.items() if isinstance(t, gen.Complex) and n not in m.heads]
        every = [n for m in self.models for n, t in m.elements.items() if isinstance(t, gen.Complex)]
        self.ops, actions = [], rng.sample(ACTIONS, len(ACTIONS))
        free_inputs = rng.sample(usable, len(usable))
        for name in rng.sample(OPERATIONS, rng.randint(1, operations)):
            if free_inputs and rng.random() >= shared:
                element = free_inputs.pop()
            else:
                element = rng.choice(usable)
            op = Op(name, actions.pop(), element, rng.choice(every))
            named = lambda element: not getattr(self.type_of(element), 'anonymous', False)
            if class_inputs and rng.random() < class_types and named(op.input):
                op.input_class = class_inputs != 'declared' or self._declare(op)
            if rng.random() < class_types and named(op.output):
                op.output_class = True
                name = self.type_of(op.output).name
                op.output_tag = name[0].lower() + name[1:]
            self.ops.append(op)
        for op in self.ops:
            # Operations do not need an action if the message tells which one is meant.
            if self.dispatched_by_root(op) and rng.random() < without_action:
                op.action = rng.choice([None, None, ''])
        self.input_header = self.output_header = None
        self.header_types = []
        for op in self.ops:
            if rng.random() < headers:
                op.input_header = self._header(rng, f'{len(self.header_types)}')
            if rng.random() < headers:
                op.output_header = self._header(rng, f'{len(self.header_types)}')
        if rng.random() < service_header:
            self.input_header = self._header(rng, 'In')
        if rng.random() < service_header:
            self.output_header = self._header(rng, 'Out')
        self.wsa = rng.random() < wsa_
        self._build(rng, nested, location)

    def _declare(self, op):
        """Give the type of the input the element a stub uses, False if its name is taken."""
        model, type_ = self.owner[op.input], self.type_of(op.input)
        name = type_.name[0].lower() + type_.name[1:]
        if getattr(type_, 'anonymous', False) or self.owner.get(name, model) is not model or model.elements.get(name, type_) is not type_:
            return False
        model.elements[name] = type_
        self.owner[name] = model
        op.input = name
        return True

    # -- construction
    def _header(self, rng, suffix):
        """A header of elements which are declared in the schemas."""
        header = gen.Complex('Head' + suffix, tns=None)
        candidates = [n for m in self.models for n, t in m.elements.items()
                      if isinstance(t, gen.Simple) or m.efd == 'qualified']
        if not candidates:
            return None
        for i, name in enumerate(rng.sample(candidates, min(len(candidates), rng.randint(1, 2)))):
            model = self.owner[name]
            kind = 'list' if rng.random() < 0.15 else 'element'
            header.fields.append(gen.Field(kind, f'part{i}', name, model.elements[name], 0, ns=model.tns))
        self.header_types.append(header)
        return header

    def _build(self, rng, nested, location):
        """Create the schemas, the later ones are imported by, included in or listed next to the first one."""
        first = self.models[0]
        self.classes = {}
        listed, imports, includes = [], [], []
        self.relations = []
        built = {}
        for i in reversed(range(1, len(self.models))):
            model = self.models[i]
            included = model.tns == first.tns
            where = rng.choice([f'types{i}.xsd', f'http://example.com/types{i}.xsd', f'sub dir/t&{i}.xsd', f'schema?v={i}'] + [x.format(i) for x in self.locations])
            nest = rng.random() < (0.7 if included else nested)
            if not nest and rng.random() < 0.4:
                where = None  # Only schemas which others refer to need a location.
            # Chains: the last schema may hang on the one before.
            inner = built.get(i + 1) if nest and i + 1 in built and rng.random() < 0.4 and self.models[i + 1].tns != model.tns \
                and model.tns != first.tns else None
            b = gen.Built(model, rng, location=where, imports=[inner.schema] if inner is not None and inner.schema in imports else None)
            if inner is not None and inner.schema in imports and rng.random() < 0.7:
                imports.remove(inner.schema)
                self.relations.append((i, i + 1, 'import'))
            built[i] = b
            ((includes if included else imports) if nest else listed).append(b.schema)
            self.relations.append((0, i, ('include' if included else 'import') if nest else 'list'))
        built[0] = gen.Built(first, rng, location=location, imports=imports or None, includes=includes or None)
        self.built = [built[i] for i in range(len(self.models))]
        self.schemas = [built[0].schema] + (listed if rng.random() < 0.5 else listed[::-1])
        for b in self.built:
            self.classes.update({id(t): b for t in b.model.complexes + b.model.simples})
        self.header_built = {}
        header_classes = []
        for header in self.header_types:
            body = {}
            for field in header.fields:
                make = xsd.ListElement if field.kind == 'list' else xsd.Element
                body[field.py] = make(self.classes_of(field.type), *([field.tag] if field.kind == 'list' else []), minOccurs=0, namespace=field.ns,
                                      **({} if field.kind == 'list' else {'tagname': field.tag}))
            cls = type(header.name, (xsd.ComplexType,), body)
            header_classes.append(cls)
            self.header_built[id(header)] = cls
        for cls in header_classes:
            cls.SCHEMA = self.schemas[0]
        methods, bound_later = [], []
        for op in self.ops:
            kwargs = {}
            if op.input_header:
                kwargs['input_header'] = self.header_built[id(op.input_header)]
            if op.output_header:
                kwargs['output_header'] = self.header_built[id(op.output_header)]
            types = [self.classes_of(self.type_of(x)) if c else x for x, c in ((op.input, op.input_class), (op.output, op.output_class))]
            handler = self._handler(op)
            late = rng.random() < 0.25
            if late:
                bound_later.append((op, handler))
            methods.append(xsd.Method(function=None if late else handler, soapAction=op.action, input=types[0], output=types[1],
                                      operationName=op.name, **kwargs))
        kwargs = {}
        if self.input_header:
            kwargs['input_header'] = self.header_built[id(self.input_header)]
        if self.output_header:
            kwargs['output_header'] = self.header_built[id(self.output_header)]
        if self.wsa:
            kwargs['use_wsa'] = True
        self.address = rng.choice(['${scheme}://${host}/soap', 'http://example.com:8080/a?b=1&c=2', 'https://${host}/x'])
        self.tns = rng.choice(['urn:service', self.models[0].tns, 'http://service.example/?a=1&b=2'])
        self.name = rng.choice(['Service', 'FlightService', 'My-Service', 'x'])
        self.service = soap.Service(name=self.name, targetNamespace=self.tns, location=self.address, schemas=self.schemas, version=self.soap,
                                    methods=methods, **kwargs)
        # Some are bound by the decorator of the service: handler, what the decorator returned.
        self.routed = [(op, handler, self.service.route(op.name)(handler)) for op, handler in bound_later]

    def classes_of(self, type):
        if isinstance(type, gen.Simple) and not type.name:
            return next(iter(self.built)).reference(type)
        return self.classes[id(type)].reference(type)

    def _handler(self, op):
        def handler(request, body):
            call = Call(op, request, body)
            with self.lock:
                self.calls.append(call)
            return self.behave(call)
        return handler

    def close(self):
        for b in self.built:
            b.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __repr__(self):
        return (f'{self.soap_name} {self.ops} schemas={self.relations} {self.models} headers={self.header_types} '
                f'in={self.input_header and self.input_header.name} out={self.output_header and self.output_header.name}')

    # -- values
    def type_of(self, element):
        return self.owner[element].elements[element]

    def random_obj(self, rng, element):
        return gen.random_obj(rng, self.type_of(element), self.options)

    def instance(self, obj, rng):
        if id(obj.type) in self.header_built:
            return gen.fill(self.header_built[id(obj.type)], obj, rng, lambda x: self.instance(x, rng))
        return self.classes[id(obj.type)].instance(obj, rng)

    def random_header(self, rng, header, empty=0):
        """Values for a header type, usually at least one part."""
        values = {}
        if rng.random() < empty:
            return gen.Obj(header, {f.py: [] if f.kind == 'list' else None for f in header.fields})
        force = rng.choice(header.fields)
        for field in header.fields:
            make = lambda: field.type.value(rng) if isinstance(field.type, gen.Simple) else gen.random_obj(rng, field.type, self.options)
            if field.kind == 'list':
                values[field.py] = [make() for _ in range(rng.randint(1 if field is force else 0, 2))]
            else:
                values[field.py] = make() if field is force or rng.random() < 0.6 else None
        return gen.Obj(header, values)

    def in_header(self, op):
        return op.input_header or self.input_header

    def out_header(self, op):
        return op.output_header or self.output_header

    # -- documents
    def message(self, obj, element, tag=None):
        model = self.owner[element]
        return gen.document(obj, tag or element, model.tns, model.efd)

    def header_parts(self, obj):
        parts = []
        for field in obj.type.fields:
            value = obj.values[field.py]
            for x in value if field.kind == 'list' else [] if value is None else [value]:
                model = self.owner[field.tag]
                if isinstance(field.type, gen.Simple):
                    node = gen.Node(model.tns, field.tag, type=field.type)
                    node.leaf = (field.type, x)
                else:
                    node = gen.document(x, field.tag, model.tns, model.efd)
                parts.append(node)
        return parts

    def envelope(self, body, parts=None):
        root, b = gen.Node(self.env, 'Envelope'), gen.Node(self.env, 'Body')
        if parts is not None:
            head = gen.Node(self.env, 'Header')
            head.children = list(parts)
            root.children.append(head)
        b.children = body if isinstance(body, list) else [body]
        root.children.append(b)
        return root

    def spell(self, rng, node, style=None, encoding=None):
        return gen.spell(rng, node, style or rng.choice([STRICT, gen.PLAIN]), encoding or rng.choice(ENCODINGS))

    def members(self, element):
        """Elements of the substitution group."""
        members = [m for model in self.models for m, head in model.heads.items() if head == element]
        return members + [x for m in members for x in self.members(m)]

    def dispatched_by_root(self, op):
        return not op.input_class and next(o for o in self.ops if o.input == op.input and not o.input_class) is op

    def environ(self, rng, content, action=None, method='POST', query='', **extra):
        environ = {
            'REQUEST_METHOD': method, 'QUERY_STRING': query, 'PATH_INFO': '/soap', 'SCRIPT_NAME': '', 'SERVER_NAME': 'localhost',
            'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'CONTENT_LENGTH': str(len(content)), 'wsgi.version': (1, 0),
            'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(content), 'wsgi.errors': io.StringIO(), 'wsgi.multithread': True,
            'wsgi.multiprocess': False, 'wsgi.run_once': False, 'HTTP_HOST': 'soap.example',
        }
        environ.update(self.action_environ(rng, action))
        environ.update(extra)
        return environ

    def action_environ(self, rng, action):
        if not action:
            action = None
        if self.soap is soap11:
            environ = {'CONTENT_TYPE': rng.choice(['text/xml', 'text/xml; charset=utf-8'])}
            if action is not None:
                environ[rng.choice(['HTTP_SOAPACTION', 'HTTP_SOAPACTION', 'HTTP_SOAPACTION', 'SOAPACTION'])] = rng.choice([action, f'"{action}"'])
            elif rng.random() < 0.3:
                environ['HTTP_SOAPACTION'] = rng.choice(['', '""'])
            return environ
        parameters = rng.choice([[], ['charset=utf-8'], ['charset="utf-8"']])
        if action is not None:
            parameters = parameters + [f'action="{action}"']
            rng.shuffle(parameters)
        elif rng.random() < 0.1:
            parameters = parameters + ['action=""']
        # Names of media types and parameters are not case-sensitive.
        if rng.random() < 0.1:
            parameters = [x.replace('action=', 'Action=') for x in parameters]
        media = rng.choice(['application/soap+xml'] * 8 + ['Application/SOAP+XML', 'application/SOAP+xml'])
        return {'CONTENT_TYPE': rng.choice(['; ', ';']).join([media] + parameters)}


_number = itertools.count()


class Reply:
    """A decoded response."""

    def __init__(self, env, content):
        self.root = etree.fromstring(content)
        self.env = env
        self.ok = self.root.tag == f'{{{env}}}Envelope'
        self.header = self.root.find(f'{{{env}}}Header')
        bodies = self.root.findall(f'{{{env}}}Body')
        names = [c.tag for c in self.root if isinstance(c.tag, str)]
        self.ok = self.ok and len(bodies) == 1 and names == [f'{{{env}}}Header'] * (len(names) - 1) + [f'{{{env}}}Body'] and len(names) <= 2
        self.body = bodies[0] if bodies else None
        children = [] if self.body is None else list(self.body)
        self.ok = self.ok and len(children) == 1
        self.content = children[0] if children else None
        self.fault = self.content if self.content is not None and self.content.tag == f'{{{env}}}Fault' else None

    def parts(self):
        """(code, message, actor) of the fault, the structure has to be valid."""
        fault, env = self.fault, self.env
        if env == S11:
            found = {}
            for child in fault:
                if child.tag not in ('faultcode', 'faultstring', 'faultactor', 'detail') or child.tag in found or len(child):
                    raise Malformed(f'{child.tag} in fault')
                found[child.tag] = child.text or ''
            if list(found)[:2] != ['faultcode', 'faultstring']:
                raise Malformed(f'fault has {list(found)}')
            return found['faultcode'], found['faultstring'], found.get('faultactor')
        q = lambda name: f'{{{env}}}{name}'
        names = [c.tag for c in fault]
        if names not in ([q('Code'), q('Reason')], [q('Code'), q('Reason'), q('Role')]):
            raise Malformed(f'fault has {names}')
        code, reason = fault[0], fault[1]
        if [c.tag for c in code] != [q('Value')] or [c.tag for c in reason] != [q('Text')]:
            raise Malformed('structure of fault')
        if not reason[0].get('{http://www.w3.org/XML/1998/namespace}lang'):
            raise Malformed('Text has no language')
        return code[0].text or '', reason[0].text or '', (fault[2].text or '') if len(fault) > 2 else None

    def code(self):
        """Local name of the fault code, which has to resolve to the namespace of the envelope in SOAP 1.2."""
        text = self.parts()[0]
        if self.env == S12:
            prefix, _, local = text.rpartition(':')
            value = self.fault[0][0]
            if value.nsmap.get(prefix or None) != self.env:
                raise Malformed(f'Fault code {text} is not in the namespace of SOAP')
            return local
        return text.rpartition(':')[2]


def request(environ, content):
    return SOAPRequest(environ, content)
