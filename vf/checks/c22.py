"""C22: handlers only ever see schema-valid messages of their own operation."""
from soapfish.core import SOAPRequest
from vf import gen, mutate, svc
from vf.checks import c10
from vf.core import Group

PROPERTY = 'C22'
RULE = ('A case sends valid requests and requests in which one constraint is broken to a random service whose handlers log '
        'every call; non-trivial and distinct by request document.')
KINDS = ['missing-element', 'missing-attribute', 'unknown-element', 'unknown-attribute', 'order', 'short-list', 'long-list', 'nil',
         'two-branches', 'no-branch', 'repeated-element', 'text', 'wrong-namespace', 'child-of-simple', 'lexical', 'range',
         'attribute-lexical', 'enumeration', 'pattern', 'maxLength']
REQUIRED = {'valid': 800, 'refused': 4000, 'header-refused': 200, 'lenient-accepted': 30, 'lenient-refused': 30, 'wrong-root': 100,
            'undeclared-root': 100, 'root-namespace': 100, 'include': 50, 'import': 100, 'list': 100, 'wsa-refused': 20, 'wsa-lenient': 10, 'wsa-mixed': 20}
REQUIRED.update({f'broken:{k}': 20 for k in KINDS})
STRUCTURE = ('unknown-element', 'unknown-attribute')


class Exchange:
    def __init__(self, mon, rng, service, dispatcher):
        self.mon, self.rng, self.service, self.dispatcher = mon, rng, service, dispatcher

    def send(self, op, body, parts, action):
        service, rng = self.service, self.rng
        content = service.spell(rng, service.envelope(body, parts))
        service.calls.clear()
        service.behave = lambda call: service.instance(service.random_obj(rng, call.op.output), rng)
        environ = service.environ(rng, content, action)
        response = self.dispatcher.dispatch(SOAPRequest(environ, content))
        self.mon.judged(content)
        self.context = {'request': content, 'environ': {k: v for k, v in environ.items() if k.isupper()}, 'service': service,
                        'response': response.http_content}
        return response

    def accepted(self, op, body, parts, action, key, what):
        response = self.send(op, body, parts, action)
        calls = self.service.calls
        reply = svc.Reply(self.service.env, response.http_content)
        return self.mon.check(len(calls) == 1 and calls[0].op is op and response.http_status_code == 200 and reply.ok and reply.fault is None,
                              key, f'{what} is refused ({len(calls)} calls, status {response.http_status_code})', **self.context)

    def refused(self, op, body, parts, action, key, what):
        response = self.send(op, body, parts, action)
        mon = self.mon
        mon.event('refused')
        if not mon.check(not self.service.calls, key, f'Handler called for {what}', **self.context):
            return
        reply = svc.Reply(self.service.env, response.http_content)
        if not mon.check(reply.ok and reply.fault is not None and response.http_status_code == 500, f'{key}:no-fault', f'No fault for {what}', **self.context):
            return
        try:
            code, message = reply.code(), reply.parts()[1]
        except ValueError as e:
            mon.violation('fault-structure', f'Malformed fault: {e}', **self.context)
            return
        mon.check(code in svc.CLIENT[self.service.env], f'{key}:code', f'Fault code {code} for {what}', **self.context)
        mon.check(message.strip(), f'{key}:silent', f'No reason given for {what}', **self.context)


def wsa_part(rng, good):
    ns = svc.WSA
    node = gen.Node(ns, rng.choice(['Action', 'MessageID', 'To', 'RelatesTo']), type=None)
    if good:
        node.leaf = (gen.Simple('anyURI'), rng.choice(['urn:a', 'http://example.com/x', 'uuid:1-2']))
        return node
    kind = rng.choice(['unknown', 'child', 'reply'])
    if kind == 'unknown':
        node.tag = 'Actions'
        node.leaf = (gen.Simple('anyURI'), 'urn:a')
    elif kind == 'child':
        node.raw = '<a xmlns="urn:x"/>'
    else:
        node.tag = 'ReplyTo'  # Without address.
        node.raw = rng.choice(['', '<wsa:Adress xmlns:wsa="http://www.w3.org/2005/08/addressing">urn:a</wsa:Adress>'])
    return node


def validate(mon, rng, index):
    with svc.RandomService(rng, headers=0.5) as service:
        strict = rng.random() < 0.7
        dispatcher = c10.open_dispatcher(service, **({} if strict and rng.random() < 0.5 else {'strict_soap_header': strict}))
        exchange = Exchange(mon, rng, service, dispatcher)
        for relation in service.relations:
            mon.event(relation[2])
        for _ in range(2):
            op = rng.choice(service.ops)
            element = rng.choice([op.input] + service.members(op.input))
            obj = service.random_obj(rng, op.input)
            head_type = service.in_header(op)
            parts = service.header_parts(service.random_header(rng, head_type)) if head_type and rng.random() < 0.8 else None
            root = service.message(obj, element)
            by_root = service.dispatched_by_root(op)
            action = lambda: None if by_root and rng.random() < 0.5 else op.action
            mon.event('valid')
            if not exchange.accepted(op, root, parts, action(), 'valid-refused', 'Valid request'):
                continue
            mon.sample(**exchange.context)
            for kind, changed in mutate.mutations(rng, root):
                mon.event(f'broken:{kind}')
                exchange.refused(op, changed, parts, action(), f'accepted-{kind}', f'a body with {kind}')
            # The root itself.
            changed = root.copy()
            changed.tag = rng.choice(['Nothing', root.tag + 'x'])
            if not any(changed.tag in m.elements for m in service.models):
                mon.event('undeclared-root')
                exchange.refused(op, changed, parts, action(), 'accepted-undeclared-root', 'an undeclared element')
            changed = root.copy()
            changed.ns = rng.choice([None, 'urn:wrong', service.env] + [m.tns for m in service.models if m.tns != root.ns])
            mon.event('root-namespace')
            exchange.refused(op, changed, parts, action(), 'accepted-root-namespace', f'a body in namespace {changed.ns}')
            if not op.input_class:
                valid = {op.input, *service.members(op.input)}
                others = [n for m in service.models for n, t in m.elements.items() if n not in valid and isinstance(t, gen.Complex)]
                if others and op.action:
                    other = rng.choice(others)
                    mon.event('wrong-root')
                    exchange.refused(op, service.message(service.random_obj(rng, other), other), parts, op.action, 'accepted-wrong-root',
                                     'the input of another operation')
            headers(mon, rng, exchange, op, root, action)


def headers(mon, rng, exchange, op, root, action):
    """Violations in headers, which strict_soap_header=False tolerates unless they are WS-Addressing."""
    service, strict = exchange.service, exchange.dispatcher.strict_soap_header
    head_type = service.in_header(op)
    parts = service.header_parts(service.random_header(rng, head_type)) if head_type else []
    found = []
    for i, part in enumerate(parts):
        for kind, changed in mutate.mutations(rng, part):
            if kind != 'nil':
                found.append((kind, parts[:i] + [changed] + parts[i + 1:]))
    unknown = gen.Node(rng.choice(['urn:unknown', service.models[0].tns]), 'Undeclared')
    unknown.leaf = (gen.Simple('string'), 'x')
    found.append(('undeclared', parts + [unknown] if rng.random() < 0.5 else [unknown] + parts))
    for kind, changed in found:
        if strict:
            mon.event('header-refused')
            exchange.refused(op, root, changed, action(), f'header-accepted-{kind}', f'a header with {kind}')
        elif kind in STRUCTURE + ('undeclared',):
            mon.event('lenient-accepted')
            exchange.accepted(op, root, changed, action(), f'lenient-refused-{kind}', f'Header with {kind} without strict checking')
        if not strict:
            # The body is checked all the same.
            for broken, body in mutate.mutations(rng, root, {rng.choice(KINDS), 'unknown-element'}):
                mon.event('lenient-refused')
                exchange.refused(op, body, changed, action(), f'lenient-accepted-{broken}', f'a body with {broken} without strict header checking')
                break
    for good in (True, False):
        part = wsa_part(rng, good)
        changed = list(parts)
        changed.insert(rng.randint(0, len(parts)), part)
        if not strict and rng.random() < 0.6:
            # Together with a part which is tolerated.
            changed.insert(rng.randint(0, len(changed)), unknown)
            mon.event('wsa-mixed')
        if good:
            mon.event('wsa-accepted')
            exchange.accepted(op, root, changed, action(), 'wsa-valid-refused', 'Valid WS-Addressing header')
        else:
            mon.event('wsa-refused' if strict else 'wsa-lenient')
            exchange.refused(op, root, changed, action(), 'wsa-accepted', 'an invalid WS-Addressing header')


def groups(tier):
    n = 40 if tier == 'thorough' else 2
    return [Group('validate', validate, 1200 * n)]
