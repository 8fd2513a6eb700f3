#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list of properties, in one readable place)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe,
         'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


X = 'soapfish/xsd.py'

prop('C01', 'Model objects survive the trip through XML unchanged',
     'For every model class built from the documented building blocks (elements, list elements, attributes, groups, '
     'choices, nested, recursive and inherited complex types, and every built-in simple type) and every instance whose '
     'fields hold accepted values, rendering the instance to XML and parsing that XML with the same class gives an '
     'instance with an equal value in every field: same text (including the empty string and whitespace), numbers, '
     'booleans, dates and times, the same list items in the same order, None for what was absent and NIL for what was '
     'nil. Rendering the parsed instance again gives an equivalent document.',
     ['inputs', 'programs'],
     'All model classes x all instances with accepted values. Domain limits taken from LIMITATIONS.md, the tutorial and '
     'the test suite: strings hold XML characters only, date-times and times carry a zone (text without one is taken as '
     'UTC) within 14 hours of UTC, decimals read from text are within double precision, types kept as text (anyURI, '
     'QName, NMTOKEN, base64Binary, duration) are carried verbatim, an element that declares a default is not '
     'explicitly set to None, an attribute is not NIL, and lists hold values in the form their type stores.',
     'The tests round-trip a dozen hand-written classes with one or two values each; the guarantee is over the product of '
     'field kinds, nesting shapes and values.',
     [X, 'soapfish/xsd_types.py', 'soapfish/utils.py'],
     [('render / parse of each field kind', X), ('xmlvalue / pythonvalue of each simple type', X)],
     ['ComplexType.xml()', 'ComplexType.parsexml()', 'attribute reads on the parsed instance'])

prop('C02', 'Rendered XML is exactly what the model declares',
     'For every model class and instance, the rendered document contains exactly one element or attribute per present '
     'value and nothing else: fields appear in declaration order (inherited fields first, group fields in place, list '
     'items in list order) under their declared tag names, namespace-qualified exactly when the form default is '
     'qualified (an element-level or schema-level namespace taking precedence over the inherited one), absent values are '
     'omitted, nil values carry xsi:nil="true" and no content, and text is escaped so that it reads back verbatim. '
     'A missing required attribute, or a list shorter than minOccurs or longer than maxOccurs, raises ValueError instead '
     'of producing a document.',
     ['inputs', 'programs'],
     'All model classes (field kinds, tag names, namespaces, form defaults, inheritance, groups) x all instances. The '
     'fields of a header class declare their namespace, as those of the library and of generated code do.',
     'The tests compare a few literal XML strings; order, qualification and omission must hold for every combination of '
     'declarations.',
     [X],
     [('field rendering and declaration ordering', X), ('namespace selection', X)],
     ['bytes returned by ComplexType.xml() and Envelope.response()'])

prop('C03', 'Parsing depends only on what the XML says, not on how it is spelled',
     'For every document that is an instance of a model class, parsing puts the value of each element and attribute into '
     'the one field declared for that name, keeps list items in document order, and drops, duplicates or misplaces '
     'nothing. The result does not depend on namespace prefixes, attribute order or quoting, comments, processing '
     'instructions, CDATA sections, character references, insignificant whitespace, the document encoding, or on unknown '
     'extra elements and attributes.',
     ['inputs', 'programs'],
     'All model classes x all instance documents x all equivalent spellings of each document.',
     'The tests parse canonical, hand-written documents; nearly all of the space of equivalent spellings that real peers '
     'send is never exercised.',
     [X],
     [('sub-element lookup and matching', X), ('text extraction of simple types', X), ('xsi:nil handling', X)],
     ['attribute reads on the instance returned by parsexml()'])

prop('C04', 'Types and facets accept exactly the values they declare, everywhere',
     'Assigning to a field, passing a constructor argument, appending to a list field, and parsing element or attribute '
     'text all accept a value exactly when it fits the declared type and every declared facet (enumeration, pattern on '
     'the whole value, length, minLength, maxLength, inclusive and exclusive bounds, totalDigits, fractionDigits, '
     'nillable, list maxOccurs), including the ranges built into the integer types, and whether the facet comes from a '
     'constructor argument or a named subtype. A rejected value raises ValueError and leaves the object as it was, and '
     'setting an undeclared field raises an error.',
     ['inputs', 'programs', 'histories'],
     'All simple types x all facet combinations (0 and negative bounds, empty strings, boundary values, alternations in '
     'patterns) x all entry points, including sequences of rejected and accepted assignments. fractionDigits means '
     'exactly that many digits, as the test suite pins. Replacing or extending a list wholesale is not an entry point '
     '(only occurrence limits are checked, when rendering).',
     'The tests check single facets with one good and one bad value; boundary and combination behaviour across four '
     'entry points is not sampled.',
     [X],
     [('accept() of each type', X), ('TypedList.append', X), ('field assignment hook', X)],
     ['exceptions and attribute reads after each operation'])

prop('C05', 'Built-in simple types map text to value and back as XML Schema defines',
     'For every built-in simple type, every accepted value is written as text that XML Schema considers valid for that '
     'type and that denotes that value, and every valid text within the documented limits is read as the value it '
     'denotes, after whitespace collapsing for non-string types (booleans as true/false/1/0, leading zeros and signs, '
     'time zones with their exact offset, years below 1000, special float values). Text outside the type (letters in '
     'numbers, month 13, hour 25, zone garbage, integers outside the built-in range) raises ValueError rather than being '
     'misread.',
     ['inputs'],
     'All lexical forms and values of Boolean, String and its relatives, Decimal, Double, Float, the thirteen integer '
     'types, Date, DateTime and Time. Limits: years 1 to 9999, zones within 14 hours of UTC, no 24:00:00, fractions of a second to microseconds, '
     'date-times and times without a zone read as UTC (as the test suite pins), double precision for decimals.',
     'The tests pick a handful of literals per type; the mapping is over an infinite lexical space with many edge '
     'classes (offset signs, half-hour zones, exponents, padding).',
     [X, 'soapfish/xsd_types.py', 'soapfish/utils.py'],
     [('xmlvalue / pythonvalue', X), ('time zone formatting', 'soapfish/utils.py')],
     ['rendered text; parsed values; libxml2 verdict on the rendered text'])

prop('C06', 'A generated XSD accepts what the model accepts and rejects what it rejects',
     'For every schema of models, the generated XSD is itself a valid XML Schema with each declared simple type, complex '
     'type and element exactly once, every document rendered from a valid instance validates against it, and a document '
     'changed to break one declared constraint (missing required element or attribute, unknown or reordered element, too '
     'many or too few list items, nil where not nillable, both branches of a choice, a facet or built-in range violated) '
     'is rejected. Rendering or parsing with a schema given refuses exactly the documents that XSD refuses.',
     ['inputs', 'programs'],
     'All schemas built from the kinds the generator documents (simple types and restrictions named or in place, complex '
     'types with sequence/choice/all, lists, attributes, substitution groups, includes) x all instances x all '
     'single-constraint mutations. Outside: group references (LIMITATIONS.md).',
     'The tests check fragments of generated text for a few types; agreement between model and XSD is a relation over '
     'all schemas and documents.',
     ['soapfish/py2xsd.py', 'soapfish/xsdspec.py', X],
     [('XSD generation', 'soapfish/py2xsd.py'), ('validation on parse/render', X)],
     ['generate_xsd() output compiled by libxml2', 'parsexml(schema=...)', 'xml(schema=...)'])

prop('C07', 'Code generated from an XSD is a faithful model of that XSD',
     'For every supported XSD, the generated Python module imports without error and its classes accept and reproduce '
     'exactly the instance documents of the XSD: a valid document parsed and rendered with the generated classes comes '
     'back equivalent and still validates, and values that violate a declared facet (named or in-place restriction), '
     'occurrence, nillability or required attribute are refused by the generated classes. Element and attribute names '
     'that are Python keywords, enumerations, and types declared before or after use all keep their XML names and '
     'meaning.',
     ['inputs', 'programs'],
     'All XSDs in the documented subset (named and in-place simple restrictions of strings and numbers, complex types '
     'with sequence/choice/all and extension, attributes of named or built-in types, attribute groups, group '
     'definitions, top-level elements of named or anonymous types, names that are keywords or no Python identifiers) x '
     'all their instance documents. Outside (not read by the generator): element and group references, xs:list and '
     'xs:union, anonymous complex types of local elements, several patterns on one type, no target namespace.',
     'The tests generate code from a handful of XSD files and mostly check that it imports.',
     ['soapfish/xsd2py.py', 'soapfish/templates/xsd.jinja2', 'soapfish/templates/lib.jinja2', 'soapfish/xsdspec.py',
      'soapfish/utils.py'],
     [('schema parsing into spec objects', 'soapfish/xsdspec.py'), ('code templates', 'soapfish/templates/lib.jinja2'),
      ('base-before-derived ordering', 'soapfish/xsd2py.py')],
     ['imported generated module; documents it parses and renders'])

prop('C08', 'A service and its WSDL describe the same operations, in both directions',
     'For every service, the generated WSDL lists each operation exactly once in port type and binding with its SOAP '
     'action, style, input and output element, the SOAP version binding, the target namespace and the endpoint address, '
     'with every internal reference resolving, and all declared types. For every WSDL in that form, generated client and '
     'server code imports and yields a service with exactly those operations, actions, elements, headers, version and '
     'address, so that WSDL to code to WSDL loses nothing.',
     ['inputs', 'programs'],
     'All services x SOAP 1.1/1.2 x document/rpc style, and all WSDL documents of the supported form including message '
     'headers and imported WSDL files. Headers are read from a WSDL, a generated WSDL does not list them.',
     'The tests use a few fixed WSDLs and check single attributes.',
     ['soapfish/py2wsdl.py', 'soapfish/wsdl2py.py', 'soapfish/wsdl.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py',
      'soapfish/templates/wsdl.jinja2'],
     [('WSDL building', 'soapfish/py2wsdl.py'), ('WSDL parsing and code template', 'soapfish/templates/wsdl.jinja2'),
      ('WSDL import merging', 'soapfish/wsdl2py.py')],
     ['generate_wsdl() output', 'service object of the imported generated module'])

prop('C09', 'Multi-file schemas resolve completely, once, from any directory',
     'For every graph of XSD or WSDL files connected by include and import (chains, diamonds, cycles, sub-directories, '
     'repeated names for the same file), code generation terminates, defines every type of every reachable file exactly '
     'once and before it is needed, and each schema object refers to its imported and included schemas, regardless of '
     'the directory the tool is run from. Elements declared anywhere in the graph can be looked up from the root schema, '
     'and a missing file is an error rather than a silent omission.',
     ['inputs', 'configurations'],
     'All include/import graphs x directory layouts x current working directories. Cycles run through elements: a type '
     'and its base type are not in files that import each other.',
     'The tests have three or four fixed layouts.',
     ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/utils.py', X, 'soapfish/templates/xsd.jinja2'],
     [('path rewriting and seen-file set', 'soapfish/xsd2py.py'), ('location resolution', 'soapfish/utils.py'),
      ('element lookup over imports', X)],
     ['generated module', 'Schema.get_element_by_name()'])

prop('C10', 'Each SOAP request reaches exactly the operation it names, exactly once',
     'For every service and every well-formed valid request, the one handler whose SOAP action is named (SOAPAction '
     'header in SOAP 1.1, action parameter of the content type in SOAP 1.2), or without an action the one whose input '
     'element (or a member of its substitution group) is the root of the body, is called exactly once, with the parsed '
     'values of the message and the parsed headers, and the reply body is that handler\'s return value under the '
     'declared output element in the SOAP version of the service. An unknown action, or an unknown root element without '
     'an action, calls no handler and gives a client fault.',
     ['inputs', 'programs', 'histories'],
     'All services (any number and order of operations, similar names, SOAP 1.1/1.2, headers) x all requests x all '
     'request sequences on one dispatcher.',
     'The tests use one echo service with one operation.',
     ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/soap.py'],
     [('handler lookup', 'soapfish/soap_dispatch.py'), ('action extraction', 'soapfish/soap11.py'),
      ('response envelope', 'soapfish/soap11.py')],
     ['handler call log', 'SOAPDispatcher.dispatch() response'])

prop('C11', 'Faults tell the client exactly what the service raised',
     'Whenever a handler or middleware raises or returns a SOAP error, the reply has HTTP status 500, the content type '
     'of the SOAP version, and one well-formed fault of that version carrying exactly the error\'s code, message, actor '
     '(role) and response header, whatever characters they contain; no success body is sent. With the exception-to-fault '
     'middleware any other exception becomes a server fault naming it (with the traceback only if asked for), and '
     'parsing the fault as a client gives back the same code, message and actor.',
     ['inputs', 'fault_sequences', 'configurations'],
     'All error codes, messages (markup, Unicode, control characters; an empty one reads as none), actors x raise/return x position in the '
     'middleware stack x SOAP version. Characters that XML cannot carry are replaced, never fatal.',
     'The tests raise one or two fixed errors and look for substrings.',
     ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/core.py',
      'soapfish/middlewares.py', 'soapfish/soap.py'],
     [('fault rendering and parsing', 'soapfish/soap11.py'), ('error handling in the dispatcher',
                                                              'soapfish/soap_dispatch.py')],
     ['HTTP status, headers and body of the response', 'SOAPError raised by the client stub'])

prop('C12', 'Any request whatsoever gets a well-formed answer',
     'For every HTTP request, however malformed (any method, query string, headers, body bytes, truncated or mutated '
     'envelopes, missing or duplicated body, comments and processing instructions anywhere, deep nesting, entity bombs), '
     'the dispatcher returns a response and raises nothing: a well-formed SOAP envelope or fault of the service\'s '
     'version for POST, the document or a 404 for WSDL and XSD requests, and 400 for anything else, with a matching '
     'status code and byte content. A request that is not well-formed or names no operation of the service never reaches a handler, and '
     'the dispatcher answers the next valid request normally.',
     ['inputs', 'histories', 'fault_sequences'],
     'All request byte strings and environments, in any sequence on one dispatcher.',
     'The tests send a few malformed messages; hostile input space is unbounded.',
     ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', X, 'soapfish/core.py'],
     [('request classification', 'soapfish/soap_dispatch.py'), ('envelope parsing', 'soapfish/soap_dispatch.py')],
     ['SOAPDispatcher.dispatch() / WSGI response', 'handler call log'])

prop('C13', 'Middlewares and hooks wrap every request in the declared order',
     'For every request each configured middleware runs exactly once around the rest of the stack in list order, sees '
     'the parsed request and the actual response or exception of what it wraps, and can replace the response, translate '
     'or swallow an exception, or answer without calling further, with the client receiving exactly what the outermost '
     'layer returned. The matching request hook runs before and the matching response hook after each SOAP, WSDL and XSD '
     'request, exactly once each, and what a hook returns is what is used; unknown hook names and hooks returning the '
     'wrong kind of object are refused.',
     ['programs', 'histories', 'fault_sequences'],
     'All middleware stacks (pass, replace, short-circuit, raise, swallow, retry) x hook sets x request kinds.',
     'The tests use one middleware or one hook at a time.',
     ['soapfish/soap_dispatch.py', 'soapfish/middlewares.py'],
     [('middleware chaining', 'soapfish/soap_dispatch.py'), ('hook calls', 'soapfish/soap_dispatch.py')],
     ['call log of middlewares and hooks; response'])

prop('C14', 'WSGI, Flask and Django deployments give the same answers',
     'For every service and every HTTP request, serving the service as plain WSGI, through Flask and through Django '
     'calls the same handler with the same input and yields the same status, content type and body as dispatching the '
     'request directly. Each response is valid for its server interface (byte body, string headers, a status line), and '
     'response status and headers chosen by the service reach the client.',
     ['inputs', 'configurations', 'histories'],
     'All requests (SOAP with action in header or body only, WSDL, XSD, unsupported methods, errors) x three adapters x '
     'SOAP 1.1/1.2.',
     'Each adapter has one or two smoke tests of its own; they are never compared.',
     ['soapfish/flask_.py', 'soapfish/django_.py', 'soapfish/soap_dispatch.py', 'soapfish/soap11.py',
      'soapfish/soap12.py', 'soapfish/core.py'],
     [('adapters', 'soapfish/flask_.py'), ('adapters', 'soapfish/django_.py'),
      ('WSGI application', 'soapfish/soap_dispatch.py')],
     ['responses of the three adapters under wsgiref.validate and test clients'])

prop('C15', 'A client stub call is equivalent to calling the remote handler',
     'For every operation and every valid argument and header, calling it through a client stub over HTTP sends one POST '
     'to the configured address with the content type, SOAP action and credentials of the service, the remote handler '
     'receives equal values, and the caller gets back values and header equal to what the handler returned. A fault '
     'raised remotely surfaces in the caller as a SOAP error with the same code, message and actor, and calls on one '
     'stub do not influence each other.',
     ['inputs', 'histories', 'configurations'],
     'All services x SOAP 1.1/1.2 x arguments, headers, faults x call sequences and location forms (template, string, '
     'callable).',
     'The tests replace the HTTP layer with a mock that returns canned bytes.',
     ['soapfish/soap.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/soap_dispatch.py'],
     [('call and response handling', 'soapfish/soap.py'), ('request headers', 'soapfish/soap11.py')],
     ['requests recorded by a loopback HTTP server; values returned by the stub; handler log'])

prop('C16', 'The served WSDL and XSD documents are complete and reachable',
     'For every service, a GET with ?wsdl or ?singleWsdl returns the service\'s WSDL with the scheme and host of the '
     'request filled into the endpoint address (the forwarded scheme if one is given) and nothing else changed, and '
     'following every schema location it contains, transitively, with GET requests reaches each imported or included '
     'schema exactly as generated. An unknown XSD name gives 404, a WSDL or XSD supplied by the user is served as given, '
     'and documents do not depend on earlier requests.',
     ['inputs', 'configurations', 'histories'],
     'All services with any import/include graph x host, scheme and query-string variants x request sequences.',
     'The tests fetch one WSDL and one XSD from a fixed service.',
     ['soapfish/soap_dispatch.py', 'soapfish/utils.py', 'soapfish/py2wsdl.py', 'soapfish/py2xsd.py'],
     [('location rewriting', 'soapfish/soap_dispatch.py'), ('schema tree walk', 'soapfish/utils.py')],
     ['responses to a crawler that follows schemaLocation'])

prop('C17', 'Concurrent requests and separate objects never affect each other',
     'However many requests run concurrently on one dispatcher or stub, each gets exactly the response it would get '
     'alone, and each handler call sees only its own request. Instances of the same model class share no mutable state: '
     'no sequence of operations on one instance (including its lists and groups), on a parsed document, or on a second '
     'schema or service changes another.',
     ['schedules', 'histories'],
     'All interleavings of requests (valid, invalid, faulting) on shared dispatchers; all sequences of operations on '
     'several instances.',
     'The tests are single-threaded and use one instance at a time.',
     [X, 'soapfish/soap_dispatch.py', 'soapfish/py2xsd.py', 'soapfish/soap.py'],
     [('per-instance empty values', X), ('request-scoped state', 'soapfish/soap_dispatch.py')],
     ['responses tagged per thread; snapshots of bystander objects'],
     state=[('per-request state', 'method, header and body of the request in progress', 'soapfish/soap_dispatch.py')])

prop('C18', 'Untrusted documents cannot make the library read files or open connections',
     'Whatever a request or document parsed by the library contains (external entities, DTDs, parameter entities, '
     'XInclude, schema location hints, stylesheet instructions), handling it reads no file and opens no network '
     'connection named by that document, and no file content ends up in the parsed values or the reply. Validating '
     'against a service\'s schemas resolves imports only to the schemas of that service, and entity expansion stays '
     'bounded.',
     ['inputs'],
     'All documents given to message dispatch, model parsing (with or without a schema), envelope parsing and client '
     'response handling.',
     'No existing test covers it.',
     ['soapfish/py2xsd.py', X, 'soapfish/soap_dispatch.py'],
     [('schema resolver', 'soapfish/py2xsd.py'), ('XML parsers in use', X)],
     ['audit events for open() and sockets, a loopback listener, canary file contents'])

prop('C19', 'WS-Addressing headers are carried, checked and correlated',
     'For a service with WS-Addressing, headers sent by a client reach the handler with the values sent, a header that '
     'violates the WS-Addressing schema gives a client fault without calling the handler, and headers rendered by the '
     'library are valid against that schema. A reply header filled from a request header relates to that request\'s '
     'message id, names the reply action, carries a message id of its own that never repeats, and is addressed to the '
     'anonymous endpoint.',
     ['inputs', 'histories'],
     'All header values and combinations x SOAP versions x request sequences.',
     'The tests parse one header.',
     ['soapfish/wsa.py', 'soapfish/soap_dispatch.py', 'soapfish/soap.py', 'soapfish/soap11.py'],
     [('header filling', 'soapfish/wsa.py'), ('header validation', 'soapfish/soap_dispatch.py')],
     ['request.soap_header in handlers; reply envelope headers'])

prop('C20', 'Command-line tools give what the API gives, reproducibly',
     'Each of the four generators run from the command line (from a path or standard input, to a file or standard '
     'output) exits 0 and writes the same document or code as the corresponding API call, and leaves no other file '
     'behind (apart from Python\'s bytecode cache). Generating twice from the same input, in any process and from any hash seed, gives the same result apart '
     'from the generation timestamp, and a failing run exits non-zero.',
     ['inputs', 'configurations'],
     'All valid inputs x input/output forms x client/server target x processes.',
     'The tests call the API functions in one process; the entry points are barely exercised.',
     ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/py2xsd.py', 'soapfish/py2wsdl.py'],
     [('main() of each generator', 'soapfish/xsd2py.py')],
     ['exit status, standard output and files of subprocesses'])

prop('C21', 'Text in a schema can never become code',
     'For every XSD or WSDL, whatever characters its values contain (quotes, backslashes, newlines, braces, template '
     'markers, comment signs, Python source), the generated module is valid Python whose import runs nothing but class '
     'and object definitions, and the enumerations, patterns, namespaces, actions and locations it '
     'defines equal the original text. No value is evaluated, substituted or truncated on the way.',
     ['inputs'],
     'All strings in value positions (facet values, namespaces, locations, SOAP actions) of XSD and WSDL documents; '
     'names are restricted to those that are identifiers. Addresses are templates ("$" has its meaning there) without '
     'control characters or an empty query; a pattern facet is not empty. Hostile text where only a name or number is '
     'allowed may be refused, but is not executed either.',
     'The tests only use harmless text.',
     ['soapfish/templates/lib.jinja2', 'soapfish/templates/wsdl.jinja2', 'soapfish/templates/xsd.jinja2',
      'soapfish/utils.py'],
     [('code templates', 'soapfish/templates/lib.jinja2')],
     ['syntax tree of the generated code; audit events during import; values of the imported objects'])

prop('C22', 'Handlers only ever see schema-valid messages of their own operation',
     'A request whose body or headers violate the service\'s schemas in any way (structure, occurrence, type, facet, '
     'nil, namespace), or whose body element is not the input of the operation its action names, gives a client fault '
     'that says why and never reaches a handler; a valid request is never refused. This holds with any number of '
     'schemas in the service and with imported and included schemas, and with strict header checking off only '
     'violations in headers other than WS-Addressing are tolerated.',
     ['inputs', 'programs', 'configurations'],
     'All services x all valid requests x all single-constraint mutations of them.',
     'The tests send one or two invalid bodies to one service.',
     ['soapfish/soap_dispatch.py', 'soapfish/py2xsd.py'],
     [('input validation', 'soapfish/soap_dispatch.py'), ('schema validator', 'soapfish/py2xsd.py')],
     ['handler call log; response'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            n = p['statement'].count('. ') + 1
            assert n <= 3, (p['id'], n)
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
