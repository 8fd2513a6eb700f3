"""C10: each SOAP request reaches exactly the operation it names, exactly once."""
from soapfish.core import SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher
from vf import gen, svc
from vf.core import Group

PROPERTY = 'C10'
RULE = ('A case dispatches a sequence of requests to a random service whose handlers log every call; non-trivial and distinct '
        'by operation, way to address it and request document.')
REQUIRED = {'by-action': 500, 'by-root': 500, 'by-member': 60, 'header': 200, 'soap11': 300, 'soap12': 300, 'unknown-action': 200,
            'unknown-root': 100, 'several-schemas': 300, 'reply-header': 200, 'shared-input': 50, 'input-class': 50, 'decorated': 200, 'without-action': 100, 'several': 200, 'output-class': 50}


def open_dispatcher(service, **kwargs):
    return SOAPDispatcher(service.service, **kwargs)


def reply_differences(service, op, obj, reply, out_header=None):
    """How a reply differs from the values a handler returned."""
    if not reply.ok or reply.fault is not None:
        return ['reply is no success']
    found = gen.compare_document(service.message(obj, op.output, op.output_tag), reply.content)
    if out_header is None:
        if reply.header is not None and len(reply.header):
            found.append('unexpected header')
    elif reply.header is None:
        found.append('header is missing')
    else:
        node = gen.Node(service.env, 'Header')
        node.children = service.header_parts(out_header)
        found += gen.compare_document(node, reply.header)
    return found


def exchange(mon, rng, service, dispatcher, op, how):
    """One valid request, everything about it is checked."""
    obj = service.random_obj(rng, op.input)
    element = op.input
    if how == 'member':
        element = rng.choice(service.members(op.input))
    head_type = service.in_header(op)
    head = service.random_header(rng, head_type) if head_type and rng.random() < 0.8 else None
    if rng.random() < 0.1:
        parts = []
    else:
        parts = service.header_parts(head) if head else None
    if parts == [] and head_type:
        head = gen.Obj(head_type, {f.py: [] if f.kind == 'list' else None for f in head_type.fields})
    node = service.envelope(service.message(obj, element), parts)
    if how == 'several':
        # The first entry is the request.
        for other in rng.choices(service.ops, k=rng.randint(1, 2)):
            node.children[-1].children.append(service.message(service.random_obj(rng, other.input), other.input))
    content = service.spell(rng, node)
    action = op.action if how == 'action' or (how == 'several' and (op.input_class or not service.dispatched_by_root(op) or rng.random() < 0.5)) or (how == 'member' and rng.random() < 0.5) else None
    out = service.random_obj(rng, op.output)
    out_type = service.out_header(op)
    out_head = service.random_header(rng, out_type) if out_type and rng.random() < 0.8 else None

    def behave(call):
        value = service.instance(out, rng)
        if out_head:
            return SOAPResponse(value, soap_header=service.instance(out_head, rng))
        return value if rng.random() < 0.7 else SOAPResponse(value)

    service.behave = behave
    service.calls.clear()
    environ = service.environ(rng, content, action)
    context = {'request': content, 'environ': {k: v for k, v in environ.items() if k.isupper()}, 'service': service}
    response = dispatcher.dispatch(SOAPRequest(environ, content))
    context['response'] = response.http_content
    if op.input_class:
        mon.event('input-class')
    if op.output_class:
        mon.event('output-class')
    mon.event({'action': 'by-action', 'root': 'by-root', 'member': 'by-member', 'several': 'several'}[how])
    mon.event(service.soap_name)
    mon.event('without-action', not op.action)
    mon.judged(op.name, how, content)
    calls = service.calls
    if how == 'several' and not calls:
        mon.check(svc.Reply(service.env, response.http_content).fault is not None, 'no-answer', 'Neither handled nor a fault', **context)
        return
    if not mon.check(len(calls) == 1, 'calls', f'{len(calls)} calls of handlers instead of 1', **context):
        return
    if not mon.check(calls[0].op is op, 'wrong-operation', f'{calls[0].op} called instead of {op}', **context):
        return
    found = gen.differences(obj, calls[0].body, parsed=True)
    mon.check(not found, 'message', f'Handler got other values: {found[:3]}', **context)
    if head is None:
        mon.check(calls[0].header is None, 'header-invented', f'Handler got the header {calls[0].header!r}', **context)
    else:
        mon.event('header')
        found = gen.differences(head, calls[0].header, parsed=True)
        mon.check(not found, 'header', f'Handler got other headers: {found[:3]}', **context)
    mon.check(response.http_status_code == 200, 'status', f'Status is {response.http_status_code}', **context)
    reply = svc.Reply(service.env, response.http_content)
    if out_head:
        mon.event('reply-header')
    found = reply_differences(service, op, out, reply, out_head)
    mon.check(not found, 'reply', f'Reply differs: {found[:3]}', **context)
    mon.sample(**context)


def refuse(mon, rng, service, dispatcher):
    """Requests which name no operation."""
    op = rng.choice(service.ops)
    kind = rng.choice(['action', 'action', 'root', 'root-action'])
    known = op.action or 'urn:op'
    action = None
    actions = {o.action for o in service.ops}
    inputs = {o.input for o in service.ops if not o.input_class}
    inputs |= {m for x in inputs for m in service.members(x)}
    element = op.input
    if kind == 'action':
        candidates = [known + 'x', known[:-1], known.upper(), known.lower(), known + '#', ' ' + known, op.name, op.input,
                      'urn:nothing', known.split('/')[0], known.split(':')[-1], known + '/', known.rstrip('/'), known + '?x', known + ' b',
                      known.replace(' ', '%20'), known.replace('%20', ' '), known + '/b', 'None', 'none']
        candidates = [x for x in candidates if x.strip() and x not in actions]
        action = rng.choice(candidates)
        if service.soap_name == 'soap12':
            action = action.strip()
            if not action or action in actions:
                return
    else:
        # An element which is declared, but no input.
        others = [n for m in service.models for n in m.elements if n not in inputs]
        others = [n for n in others if isinstance(service.type_of(n), gen.Complex)]
        if not others:
            return
        element = rng.choice(others)
        if kind == 'root-action':
            if op.input_class or not op.action:
                return  # Every element is accepted.
            action = op.action
    node = service.envelope(service.message(service.random_obj(rng, element), element))
    if kind == 'root' and rng.random() < 0.6:
        # What is called like an input but in no namespace, before a good request.
        kind, good = 'other-first', service.message(service.random_obj(rng, op.input), op.input)
        first = rng.choice([node.children[-1].children[0], gen.Node(None, good.tag), gen.Node('urn:foreign', good.tag), gen.Node(None, 'x')])
        node.children[-1].children = [first, good]
        mon.event('other-first')
    content = service.spell(rng, node)
    service.calls.clear()
    environ = service.environ(rng, content, action)
    response = dispatcher.dispatch(SOAPRequest(environ, content))
    context = {'request': content, 'environ': {k: v for k, v in environ.items() if k.isupper()}, 'service': service,
               'response': response.http_content}
    mon.event('unknown-action' if kind == 'action' else 'unknown-root')
    mon.judged(kind, action, content)
    mon.check(not service.calls, f'called-{kind}', f'Handler called for unknown {kind} {action!r}, element {element}', **context)
    reply = svc.Reply(service.env, response.http_content)
    if mon.check(reply.ok and reply.fault is not None, f'no-fault-{kind}', f'No fault for unknown {kind}', **context):
        try:
            code = reply.code()
        except ValueError as e:
            mon.violation('fault-structure', f'Malformed fault: {e}', **context)
            return
        mon.check(code in svc.CLIENT[service.env] and response.http_status_code == 500, f'fault-code-{kind}',
                  f'Fault code {code}, status {response.http_status_code}', **context)


def route(mon, rng, index):
    with svc.RandomService(rng) as service:
        dispatcher = open_dispatcher(service)
        if len(service.models) > 1:
            mon.event('several-schemas')
        for op, handler, bound in service.routed:
            mon.event('decorated')
            mon.check(bound is handler, 'decorator', f'Decorator of {op.name} returned {bound!r} instead of the handler', service=service)
        for _ in range(5):
            op = rng.choice(service.ops)
            hows = ['action', 'action']
            if service.dispatched_by_root(op):
                hows += ['root', 'root']
                if service.members(op.input):
                    hows += ['member', 'member']
            else:
                mon.event('shared-input')
            exchange(mon, rng, service, dispatcher, op, 'several' if rng.random() < 0.08 else rng.choice(hows))
            if rng.random() < 0.4:
                refuse(mon, rng, service, dispatcher)


def groups(tier):
    n = 40 if tier == 'thorough' else 3
    return [Group('route', route, 1600 * n)]
