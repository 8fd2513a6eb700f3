"""C14: WSGI, Flask and Django deployments give the same answers."""
import http.client
import io
import random
import sys
import types
import urllib.parse
import warnings
from wsgiref.validate import validator

from lxml import etree

from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.django_ import django_dispatcher
from soapfish.flask_ import flask_dispatcher
from soapfish.middlewares import ExceptionToSoapFault
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
from vf import gen, mutate, svc
from vf.checks import c12
from vf.core import Group

PROPERTY = 'C14'
RULE = ('A case sends the same requests to a service directly and through its WSGI, Flask and Django adapters and compares answers '
        'and handler calls; non-trivial and distinct by server and request.')
REQUIRED = {'wsgi': 1500, 'flask': 1500, 'django': 1500, 'success': 300, 'fault': 300, 'documents': 300, 'bad': 100, 'status': 100, 'headers': 150,
            'handler-calls': 900, 'middleware': 100, 'given-wsdl': 15, 'odd-headers': 400}

_django = None


class View:
    """The view of the Django project, replaced for every service."""

    current = None

    def __call__(self, request):
        return View.current(request)

    @property
    def csrf_exempt(self):
        return getattr(View.current, 'csrf_exempt', False)


def django_application():
    global _django
    if _django is None:
        import django
        from django.conf import settings
        from django.core.handlers.wsgi import WSGIHandler
        from django.urls import re_path
        urls = types.ModuleType('vf_urls')
        urls.urlpatterns = [re_path('^soap$', View())]
        sys.modules['vf_urls'] = urls
        settings.configure(ROOT_URLCONF='vf_urls', ALLOWED_HOSTS=['*'], SECRET_KEY='x', DEBUG_PROPAGATE_EXCEPTIONS=True, LOGGING_CONFIG=None,
                           MIDDLEWARE=['django.middleware.csrf.CsrfViewMiddleware'], USE_TZ=True)
        django.setup()
        _django = WSGIHandler()
    return _django


def flask_application(service, kwargs):
    import flask
    app = flask.Flask('vf')
    app.config['PROPAGATE_EXCEPTIONS'] = True
    app.add_url_rule('/soap', 'soap', flask_dispatcher(service, **kwargs), methods=['GET', 'POST', 'PUT', 'DELETE', 'PATCH'], provide_automatic_options=False)
    return app


def letters(text):
    return ''.join(c for c in text.casefold() if c.isalnum())


def call(mon, name, app, environ, content, context):
    """(status, headers, body) of a WSGI application, which wsgiref watches."""
    environ = {**environ, 'wsgi.input': io.BytesIO(content), 'wsgi.errors': io.StringIO()}
    seen = []

    def start_response(status, headers, exc_info=None):
        seen.append((status, list(headers)))
        return lambda data: None

    try:
        result = validator(app)(environ, start_response)
        try:
            data = b''.join(result)
        finally:
            result.close()
    except AssertionError as e:
        mon.violation(f'{name}-protocol', f'{name} response is not valid WSGI: {e}', **context)
        return None
    if not mon.check(len(seen) == 1, f'{name}-protocol', f'{name} starts {len(seen)} responses', **context):
        return None
    status, headers = seen[0]
    values = {}
    for k, v in headers:
        values.setdefault(k.lower(), []).append(v)
    for k, v in values.items():
        mon.check(len(v) == 1, f'{name}-header-twice', f'{name} sends {k} more than once: {v}', **context)
    code, _, reason = status.partition(' ')
    standard = http.client.responses.get(int(code))
    mon.check(standard is None or letters(reason) == letters(standard), f'{name}-reason', f'{name} answers with the status {status!r}', **context)
    if 'content-length' in values:
        mon.event('length')
        mon.check(values['content-length'][0] == str(len(data)), f'{name}-length', f'{name} announces {values["content-length"][0]} bytes and sends {len(data)}', **context)
    return int(status[:3]), {k: v[0] for k, v in values.items()}, data


def scripted(service, seed):
    """A handler whose answer depends on the message only."""
    def behave(call):
        rng = random.Random(f'{seed}/{call.op.name}/{type(call.body).__name__}')
        roll = rng.random()
        if roll < 0.15:
            raise SOAPError(rng.choice([service.soap.Code.CLIENT, service.soap.Code.SERVER]), rng.choice(['failed', '<&>', '\xe9\u20ac', 'a\nb']), rng.choice([None, 'urn:a']))
        value = service.instance(service.random_obj(rng, call.op.output), rng)
        kwargs = {}
        if rng.random() < 0.4:
            kwargs['http_status_code'] = rng.choice([200, 201, 202, 203, 299, 404, 500, 503, 418])
        if rng.random() < 0.5:
            kwargs['http_headers'] = {'X-Custom': rng.choice(['1', 'a b', 'x; y="z"', '\xe9']), 'Cache-Control': 'no-store'}
        head = service.out_header(call.op)
        if head and rng.random() < 0.5:
            kwargs['soap_header'] = service.instance(service.random_header(rng, head), rng)
        if roll > 0.93:
            return SOAPResponse(SOAPError(service.soap.Code.SERVER, 'returned'), **kwargs)
        return SOAPResponse(value, **kwargs) if kwargs else value
    return behave


def shout(request, next_call):
    response = next_call(request)
    if isinstance(response, SOAPResponse):
        response.http_headers['X-Middleware'] = 'seen'
    return response


def requests(rng, service):
    """Yield (kind, environ, content, values)."""
    for _ in range(4):
        op = rng.choice(service.ops)
        obj = service.random_obj(rng, op.input)
        head = service.in_header(op)
        parts = service.header_parts(service.random_header(rng, head)) if head and rng.random() < 0.6 else None
        node = service.message(obj, op.input)
        action = None if service.dispatched_by_root(op) and rng.random() < 0.4 else op.action
        roll = rng.random()
        if roll < 0.25:
            for _kind, changed in mutate.mutations(rng, node):
                node = changed
                break
        content = service.spell(rng, service.envelope(node, parts))
        if roll > 0.9:
            content = c12.mutate_bytes(rng, content)
        elif roll > 0.8:
            content = c12.raw_bodies(rng, service, service.spell(rng, service.envelope(node), gen.PLAIN, 'bare'))
        elif roll > 0.75:
            action = 'urn:nothing'
        environ = service.environ(rng, content, action)
        environ.pop('SOAPACTION', None)  # Never set by a server.
        if action is not None and service.soap_name == 'soap11':
            environ['HTTP_SOAPACTION'] = rng.choice([action, f'"{action}"'])
        if service.soap_name == 'soap11' and rng.random() < 0.15:
            environ['CONTENT_TYPE'] = rng.choice(['application/x-www-form-urlencoded', 'text/plain', 'multipart/form-data; boundary=x', ''])
        if rng.random() < 0.1:
            environ['QUERY_STRING'] = rng.choice(['wsdl', 'x=1', 'xsd=', '%'])
        odd_headers(rng, environ, op.action or 'urn:x')
        yield 'soap', environ, content
    locations = [b.schema.location for b in service.built if b.schema.location] + ['nothing']
    for _ in range(2):
        query = rng.choice(['wsdl', 'singleWsdl', 'wsdl=1&x', 'xsd=' + urllib.parse.quote(rng.choice(locations)), 'xsd=' + urllib.parse.quote(rng.choice(locations))])
        environ = service.environ(rng, b'', None, method='GET', query=query)
        if rng.random() < 0.3:
            environ['HTTP_X_FORWARDED_PROTO'] = rng.choice(['https', 'http'])
        environ['wsgi.url_scheme'] = rng.choice(['http', 'https'])
        environ['HTTP_HOST'] = rng.choice(['soap.example', 'localhost:8080', '[::1]:80'])
        odd_headers(rng, environ, 'urn:x')
        yield 'documents', environ, b''
    environ = service.environ(rng, b'x', None, method=rng.choice(['GET', 'PUT', 'DELETE', 'PATCH']), query=rng.choice(['', 'x=1', 'wsd']))
    odd_headers(rng, environ, 'urn:x')
    yield 'bad', environ, b'x'


def odd_headers(rng, environ, action):
    """Headers of a client named like variables of the server."""
    values = {'HTTP_REQUEST_METHOD': ['GET', 'POST', 'PUT'], 'HTTP_QUERY_STRING': ['wsdl', 'xsd=a', ''], 'HTTP_ACTION': [action, f'"{action}"', 'urn:nothing', ''],
              'HTTP_HTTP_SOAPACTION': ['urn:nothing'], 'HTTP_WSGI_URL_SCHEME': ['https'], 'HTTP_WSGI.URL_SCHEME': ['gopher'], 'HTTP_HTTP_HOST': ['evil'],
              'HTTP_SCRIPT_NAME': ['/x'], 'HTTP_SOAP_ACTION': ['urn:nothing'], 'HTTP_X_HTTP_METHOD_OVERRIDE': ['GET'],
              'HTTP_X_ORIGINAL_URL': ['/other?wsdl'], 'HTTP_X_FORWARDED_HOST': ['other'], 'HTTP_HTTP_X_FORWARDED_PROTO': ['gopher']}
    if rng.random() < 0.4:
        for name in rng.sample(sorted(values), rng.randint(1, 4)):
            environ[name] = rng.choice(values[name])


def compare(mon, rng, index):
    warnings.simplefilter('ignore')
    with svc.RandomService(rng, schemas=2, operations=3, headers=0.4) as service:
        kwargs = {}
        if rng.random() < 0.4:
            kwargs['middlewares'] = [ExceptionToSoapFault(), shout] if rng.random() < 0.5 else [shout]
            mon.event('middleware')
        if rng.random() < 0.3:
            kwargs['strict_soap_header'] = False
        if rng.random() < 0.1:
            kwargs['wsdl'] = rng.choice([b'<definitions xmlns="http://schemas.xmlsoap.org/wsdl/"/>', '<definitions xmlns="http://schemas.xmlsoap.org/wsdl/"><!-- \xe9\u20ac\U0001f600 --></definitions>'])
            if rng.random() < 0.5:
                kwargs['xsds'] = {b.schema.location: f'<!-- {b.schema.location} \xe9\u20ac --><x/>' for b in service.built if b.schema.location}
            mon.event('given-wsdl')
        if rng.random() < 0.15:
            # Content of any type.
            text = rng.choice([b'\xff\x00raw', 'text \xe9\u20ac', b'', 'x' * 100000])
            kwargs['hooks'] = {rng.choice(['soap-response', 'xsd-response', 'wsdl-response']): lambda dispatcher, request, response: SOAPResponse(None, http_content=text, http_headers={'Content-Type': 'text/plain'})}
            mon.event('content-of-hook')
        direct = SOAPDispatcher(service.service, **kwargs)
        apps = {'wsgi': WsgiSoapApplication(SOAPDispatcher(service.service, **kwargs)), 'flask': flask_application(service.service, kwargs)}
        View.current = staticmethod(django_dispatcher(service.service, **kwargs))
        apps['django'] = django_application()
        for kind, environ, content in requests(rng, service):
            seed = rng.random()
            service.behave = scripted(service, seed)
            service.calls.clear()
            response = direct.dispatch(SOAPRequest(dict(environ), content))
            calls = list(service.calls)
            data = response.http_content
            data = data.encode() if isinstance(data, str) else data
            mon.event('odd-headers', any(k.startswith('HTTP_') and k not in ('HTTP_SOAPACTION', 'HTTP_HOST', 'HTTP_X_FORWARDED_PROTO') for k in environ))
            mon.event(kind if kind != 'soap' else 'fault' if response.http_status_code == 500 else 'success')
            context = {'environ': {k: v for k, v in environ.items() if k.isupper()}, 'request': content, 'direct': data, 'service': service}
            for name, app in apps.items():
                service.calls.clear()
                mon.event(name)
                mon.judged(name, environ['REQUEST_METHOD'], environ['QUERY_STRING'], environ.get('HTTP_SOAPACTION'), environ['CONTENT_TYPE'], content)
                answer = call(mon, name, app, environ, content, context)
                if answer is None:
                    continue
                status, headers, body = answer
                mon.check(status == response.http_status_code, f'{name}-status', f'{name} answers with status {status} instead of {response.http_status_code}', **context)
                mon.check(body == data, f'{name}-body', f'{name} answers with another body: {body!r}', **context)
                if response.http_status_code not in (200, 500):
                    mon.event('status')
                for key, value in response.http_headers.items():
                    actual = headers.get(key.lower())
                    if key.startswith('X-'):
                        mon.event('headers')
                    mon.check(same_header(actual, value), f'{name}-header-{key.lower()}', f'{name} sends {key}: {actual!r} instead of {value!r}', **context)
                others = service.calls
                if not mon.check(len(others) == len(calls) and all(a.op is b.op for a, b in zip(calls, others)), f'{name}-calls', f'{name} calls {[c.op for c in others]} instead of {[c.op for c in calls]}', **context):
                    continue
                for a, b in zip(calls, others):
                    mon.event('handler-calls')
                    if name == 'django':
                        by_name(mon, rng, b.request.environ, environ, context)
                    one, two = rendered(service, a.body), rendered(service, b.body)
                    mon.check(one == two, f'{name}-input', f'{name} handler gets {two} instead of {one}', **context)
                    mon.check(rendered(service, a.header) == rendered(service, b.header), f'{name}-header', f'{name} handler gets other headers', **context)
        mon.sample(environ=context['environ'], direct=data)


def by_name(mon, rng, seen, environ, context):
    """Handlers find the headers by their names."""
    for key in ('HTTP_X_ORIGINAL_URL', 'HTTP_X_FORWARDED_HOST', 'HTTP_X_HTTP_METHOD_OVERRIDE'):
        header = key[5:].replace('_', '-')
        header = rng.choice([header.title(), header.lower(), header.title().replace('-', '_')])
        mon.event('by-name', key in environ)
        mon.check(seen.get(header, 'none') == environ.get(key, 'none'), 'django-header-name', f'{header} is {seen.get(header)!r}', **context)
        mon.check(seen.get(key, 'none') == environ.get(key, 'none'), 'django-header-name', f'{key} is {seen.get(key)!r}', **context)


def same_header(actual, value):
    if actual == value:
        return True
    # Django encodes what is not ASCII.
    return actual is not None and any(ord(c) > 127 for c in value)


def rendered(service, value):
    try:
        return None if value is None else value.xml('x')
    except ValueError:
        # Operations whose input is a class take any message which is named by their action.
        return type(value), etree.tostring(value._xmlelement)


def groups(tier):
    n = 25 if tier == 'thorough' else 2
    return [Group('compare', compare, 500 * n)]
