"""C09: graphs of XSD and WSDL files which include and import each other, from any directory."""
import ast
import hashlib
import os
import re
import shutil
import tempfile
import types

from lxml import etree

from soapfish import soap, soap11, soap12, wsdl2py, xsd, xsd2py
from vf import gen, loop, xsdgen
from vf.core import Group

PROPERTY = 'C09'
RULE = ('A case writes a random graph of XSD (and WSDL) files to a scratch directory or serves it by HTTP, generates code from '
        'several working directories and checks every class, schema object, reference and element; distinct by graph.')
REQUIRED = {'files': 1500, 'includes': 400, 'imports': 400, 'cycles': 100, 'diamonds': 100, 'directories': 200, 'chameleon': 50, 'respelled': 200,
            'repeated': 60, 'root-cycle': 40, 'foreign-type': 300, 'foreign-base': 60, 'documents': 400, 'cwd': 300, 'missing': 100, 'remote': 30, 'remote-wsdl': 25, 'missing-remote': 15,
            'wsdl': 60, 'absolute': 60, 'mixed': 30, 'wsdl-absolute': 15, 'embedded': 400, 'embedded-unordered': 80, 'embedded-imported': 60, 'queries': 15, 'wsdl-imports': 60, 'wsdl-same-references': 30, 'cli': 150, 'lookups': 1500}
STYLE = dict(gen.WILD, unknown=0, nilfalse=0)
NAMESPACES = ['urn:one', 'urn:two', 'http://example.com/three', 'http://example.com/four#x', 'urn:five', 'urn:Two', 'http://example.com/three/']
DIRECTORIES = ['', '', 'types', 'types/common', 'other', 'other/deep/er', 'a b']
FILES = ['types.xsd', 'common.xsd', 'base.xsd', 'main.xsd', 'Types.xsd', 'types.XSD', 'T.xsd', 'my types.xsd', 'schema', 'v1.0.xsd']


class File:
    def __init__(self, number, path, tns):
        self.number, self.path, self.tns = number, path, tns
        self.chameleon = False
        self.refs = []          # [(kind, File, location)]
        self.simples, self.complexes, self.elements = [], [], {}

    def __repr__(self):
        return f'{self.path}({self.tns}{" chameleon" * self.chameleon}) {[(k, f.path, x) for k, f, x in self.refs]}'

    def targets(self):
        return [f for _, f, _ in self.refs]


def reachable(file, found=None):
    found = [] if found is None else found
    if file not in found:
        found.append(file)
        for f in file.targets():
            reachable(f, found)
    return found


class Graph:
    """Files with references and types which use the types of the files they refer to."""

    def __init__(self, rng, root_cycle=True, efd=None, prefix='', directory='', cycles=0.4, absolute=0, queries=False, mixed=0, embedded=False):
        self.rng = rng
        self.absolute = absolute  # Probability of absolute locations, which begin with @ROOT@ here.
        self.embedded = embedded  # All are part of one WSDL and refer to each other by namespace.
        self.remote = set()       # Local files might refer to these ones on a server.
        self.prefix = prefix
        self.options = gen.Options(tns=1, two_tns=0, group=0, attribute_group=0, override=0, default=0, renamed=0, swapped=0, narrow=True,
                                   attribute_inline=0, odd=0.05)
        self.efd = efd or rng.choice(['qualified', 'unqualified'])
        self.namespaces = rng.sample(NAMESPACES, rng.randint(1, 4))
        if rng.random() < 0.1:
            self.namespaces = ['urn:ns812', 'urn:ns2011', *self.namespaces[:2]]
        self.files = self.layout(directory)
        if queries:
            # The path is the same for all files of a directory, and only the query differs.
            for file in self.files:
                if rng.random() < 0.7:
                    file.path = os.path.join(os.path.dirname(file.path), f'docs?{rng.choice(["xsd", "v"])}={rng.choice(["", "x/", "../"])}n{file.number}.xsd')
        elif rng.random() < 0.15:
            self.similar_paths()
        if embedded:
            self.files = self.files[:len(NAMESPACES)]
            for file, namespace in zip(self.files, rng.sample(NAMESPACES, len(NAMESPACES))):
                file.tns = namespace
        self.edges(root_cycle, cycles)
        if rng.random() < mixed:
            self.move()
        self.components()

    def move(self):
        """Some files and all they refer to are on a server."""
        candidates = [f for f in self.files if f is not self.files[0] and self.files[0] not in reachable(f) and not any(' ' in x.path for x in reachable(f))]
        if not candidates:
            return
        self.remote = set(reachable(self.rng.choice(candidates)))
        for file in self.files:
            file.refs = [(kind, target, f'@REMOTE@/{target.path}' if target in self.remote and (file not in self.remote or '@' in location) else location)
                         for kind, target, location in file.refs]

    def layout(self, directory):
        rng = self.rng
        files, paths = [], set()
        count = rng.randint(2, 7)
        while len(files) < count:
            path = os.path.normpath(os.path.join(directory, rng.choice(DIRECTORIES), rng.choice(FILES)))
            if path not in paths:
                paths.add(path)
                files.append(File(len(files), path, rng.choice(self.namespaces)))
        return files

    def edges(self, root_cycle, cycles):
        rng, files = self.rng, self.files
        for i, file in enumerate(files[1:], 1):
            parent = rng.choice([f for f in files[:i] if not f.chameleon])
            if not self.embedded and rng.random() < 0.15:
                # A file without target namespace is included into the namespace of the only file which refers to it.
                file.chameleon, file.tns = True, parent.tns
            self.connect(parent, file)
        for _ in range(rng.randint(0, len(files))):
            one, two = rng.sample(files, 2)
            if one.chameleon or two.chameleon or (two is files[0] and not root_cycle):
                continue
            if two.number < one.number and rng.random() > cycles:
                one, two = two, one
            if two in one.targets() and rng.random() < 0.7:
                continue
            self.connect(one, two)
        for file in files:
            rng.shuffle(file.refs)

    def connect(self, one, two):
        kind = 'include' if one.tns == two.tns else 'import'
        one.refs.append((kind, two, self.spelled(one, two)))

    def spelled(self, one, two):
        """One of the ways to refer to a file."""
        rng = self.rng
        folder = os.path.dirname(one.path.split('?')[0]) or '.'
        plain = os.path.relpath(two.path, folder)
        if '?' in two.path:
            path, query = two.path.split('?')
            return f'{os.path.relpath(path, folder)}?{query}'
        if rng.random() < self.absolute:
            return f'@ROOT@/{two.path}'
        roll = rng.random()
        if roll < 0.6:
            return plain
        if roll < 0.8:
            return './' + plain
        if folder == '.':
            return os.path.join(rng.choice(['other', 'types']), '..', plain)
        return os.path.join('..', os.path.basename(folder), plain)

    def similar_paths(self):
        """Rename two files so that their locations have the same short hash, the generated code names schema objects by it."""
        here = os.path.dirname(self.files[0].path) or '.'
        one, two = self.rng.sample(self.files, 2)
        start = self.rng.randrange(10 ** 6)
        candidates = [[os.path.join(os.path.dirname(f.path), f'{prefix}{n}.xsd') for n in range(start, start + 4000)] for f, prefix in ((one, 'f'), (two, 'g'))]
        digests = {digest(os.path.relpath(x, here)): x for x in candidates[0]}
        for path in candidates[1]:
            found = digests.get(digest(os.path.relpath(path, here)))
            if found:
                one.path, two.path = found, path
                return

    def collisions(self):
        """Different locations or namespaces with the same short hash."""
        here = os.path.dirname(self.files[0].path) or '.'
        names = {f.tns for f in self.files} | {os.path.relpath(f.path, here) for f in self.files}
        return len(names) - len({digest(x) for x in names})

    def components(self):
        rng = self.rng
        simples = {}
        for file in self.files:
            n = f'{self.prefix}{file.number}'
            shells = gen.Model(self.options)
            for k in range(rng.randint(0, 2)):
                simple = gen.random_simple(rng, self.options, facets=True, name=f'Simple{n}{"ab"[k]}')
                file.simples.append(simple)
            file.shells = shells
            for k in range(rng.randint(1, 2)):
                file.complexes.append(gen.Complex(f'Type{n}{"ab"[k]}', tns=file.tns))
        for file in self.files:
            later = [f for f in file.targets() if file not in reachable(f) and not f.chameleon]
            for c in file.complexes:
                bases = [b for f in later for b in f.complexes if b.indicator == 'Sequence']
                if bases and rng.random() < 0.3:
                    c.base = rng.choice(bases)
                elif rng.random() < 0.15:
                    c.indicator = 'Choice'
        for file in self.files:
            for c in file.complexes:
                self.fields(file, c)
            file.elements[f'element{self.prefix}{file.number}'] = rng.choice(file.complexes)
            if rng.random() < 0.3:
                file.elements[f'other{self.prefix}{file.number}'] = rng.choice(file.complexes)

    def fields(self, file, cls):
        rng = self.rng
        # The root might be in a cycle, so its types can be used everywhere.
        near = [file] + [f for f in file.targets() if not f.chameleon or f.tns == file.tns]
        if file.chameleon:
            near = [file]
        simples = [s for f in near for s in f.simples]
        complexes = [c for f in near for c in f.complexes]
        where = f'{self.prefix}{file.number}{cls.name[-1]}'
        choice = cls.indicator == 'Choice'
        for k in range(rng.randint(2 if choice else 1, 4)):
            tag = f'f{where}{k}'
            simple = k == 0 or rng.random() < 0.4
            type = (rng.choice(simples) if simples and rng.random() < 0.7 else gen.random_simple(rng, self.options)) if simple else rng.choice(complexes)
            if isinstance(type, gen.Simple) and not choice and rng.random() < 0.2:
                cls.fields.append(gen.Field('attribute', tag, tag, type, rng.randint(0, 1)))
            elif rng.random() < 0.25:
                cls.fields.append(gen.Field('list', tag, tag, type, 0, rng.choice([None, 3])))
            else:
                cls.fields.append(gen.Field('element', tag, tag, type, 1 if choice else 0 if not simple else rng.randint(0, 1)))
        if not choice and rng.random() < 0.2:
            # Names look alike in all files.
            cls.fields.append(gen.Field('element', f'same{where}', f'same{where}', gen.Simple('string'), 0))

    def merged(self, files=None):
        """All components of some files in one model."""
        model = gen.Model(self.options)
        model.tns, model.efd = self.files[0].tns, self.efd
        for file in files or self.files:
            model.simples += file.simples
            model.complexes += file.complexes
            model.elements.update(file.elements)
        model.root = model.complexes[0]
        return model

    def documents(self, names):
        """The text of all files."""
        rng = self.rng
        result = {}
        for file in self.files:
            model = gen.Model(self.options)
            model.tns, model.efd = None if file.chameleon else file.tns, self.efd
            model.simples, model.complexes, model.elements = file.simples, file.complexes, file.elements
            refs = []
            for kind, target, location in file.refs:
                values = {'schemaLocation': location}
                if kind == 'import':
                    values = {'namespace': target.tns, **({} if self.embedded else values)}
                refs.append((kind, values))
            if self.embedded and rng.random() < 0.2:
                refs.insert(rng.randint(0, len(refs)), ('import', {'namespace': rng.choice(['http://schemas.xmlsoap.org/soap/encoding/', 'http://www.w3.org/XML/1998/namespace'])}))
            writer = xsdgen.Writer(rng, model, names, refs=refs)
            if file.chameleon:
                writer.without_namespace()
            for target in file.targets():
                if target.tns != file.tns:
                    writer.add_foreign(target.tns, target.simples + target.complexes)
            result[file.path] = writer.document()
        return result


def placed(documents, root):
    """Documents with the actual absolute locations."""
    for place, actual in (('@ROOT@', root), ('@REMOTE@', f'http://{loop.Server.get().host}/tree')):
        for encoding in ('ascii', 'utf-16-le', 'utf-16-be'):
            documents = {path: content.replace(place.encode(encoding), actual.encode(encoding)) for path, content in documents.items()}
    return documents


def digest(value):
    return hashlib.md5(value.encode()).hexdigest()[:5]


def write(directory, documents):
    for path, content in documents.items():
        path = os.path.join(directory, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(content)
    for name in ('types', 'other'):  # Used to spell locations.
        os.makedirs(os.path.join(directory, name), exist_ok=True)


class Scratch:
    """A scratch directory, the working directory is restored."""

    def __enter__(self):
        self.before = os.getcwd()
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='vf-c09-'))
        return self.path

    def __exit__(self, *args):
        os.chdir(self.before)
        shutil.rmtree(self.path, ignore_errors=True)


def without_time(code):
    return re.sub(r'# +Note: Generated by .* at .*', '', code)


def count(mon, graph):
    files = graph.files
    mon.event('files', len(files))
    kinds = [k for f in files for k, _, _ in f.refs]
    mon.event('includes', kinds.count('include'))
    mon.event('imports', kinds.count('import'))
    mon.event('cycles', any(f in reachable(t) for f in files for t in f.targets()))
    mon.event('root-cycle', any(files[0] in f.targets() for f in files))
    mon.event('diamonds', any(sum(f in g.targets() for g in files) > 1 for f in files))
    mon.event('repeated', any(len(f.targets()) != len(set(f.targets())) for f in files))
    mon.event('same-hash', graph.collisions())
    mon.event('directories', len({os.path.dirname(f.path) for f in files}) > 1)
    mon.event('chameleon', any(f.chameleon for f in files))
    mon.event('absolute', any(x.startswith('@ROOT@') for f in files for _, _, x in f.refs))
    mon.event('respelled', any('./' in x.replace('../', '', 1) or 'other/..' in x for f in files for _, _, x in f.refs))
    owner = {c: f for f in files for c in f.complexes}
    mon.event('foreign-type', any(isinstance(x.type, gen.Complex) and owner[x.type] is not f for f in files for c in f.complexes for x in c.fields))
    mon.event('foreign-base', any(c.base and owner[c.base] is not f for f in files for c in f.complexes))


def defined(code):
    """Names of all classes in the order of their definition."""
    return [x.name for x in ast.walk(ast.parse(code)) if isinstance(x, ast.ClassDef)]


def judge(mon, rng, graph, names, code, context, extra=()):
    """The generated code defines everything once and refers to it."""
    files = reachable(graph.files[0])
    model = graph.merged()
    wanted = sorted(xsdgen.class_name(names.xml[x]) for f in files for x in f.simples + f.complexes)
    found = sorted(x for x in defined(code) if x not in extra)
    mon.judged(*[repr(f) for f in files], len(code))
    if not mon.check(found == wanted, 'definitions', f'Classes are {found} instead of {wanted}', **context):
        return None
    try:
        with xsdgen.Module(code) as module:
            return modules(mon, rng, graph, files, model, names, module, context)
    except (SyntaxError, NameError, ImportError, TypeError, AttributeError) as e:
        mon.violation('import', f'Generated code can not be used: {e!r}', **context)


def modules(mon, rng, graph, files, model, names, module, context):
    generated = xsdgen.Generated(module, model, names)
    if not mon.check(not generated.missing, 'missing', f'{generated.missing[:4]}', **context):
        return
    schemas = {}
    for schema in generated.schemas():
        owners = [f for f in files if set(f.elements) == set(schema.elements)]
        if not mon.check(len(owners) == 1 or not schema.elements, 'schema-elements', f'Schema with the elements {sorted(schema.elements)}', **context):
            return
        for owner in owners:
            if not mon.check(owner not in schemas, 'schema-twice', f'Two schema objects for {owner.path}', **context):
                return
            schemas[owner] = schema
    if not mon.check(set(schemas) == set(files), 'schema-missing', f'No schema object for {[f.path for f in files if f not in schemas]}', **context):
        return
    for file, schema in schemas.items():
        mon.check(schema.targetNamespace == file.tns, 'target-namespace', f'{file.path}: {schema.targetNamespace!r}', **context)
        python = lambda types: sorted(xsdgen.class_name(names.xml[x]) for x in types)
        mon.check(sorted(x.__name__ for x in schema.complexTypes) == python(file.complexes), 'complex-types', f'{file.path}: {schema.complexTypes}', **context)
        mon.check(sorted(x.__name__ for x in schema.simpleTypes) == python(file.simples), 'simple-types', f'{file.path}: {schema.simpleTypes}', **context)
        for kind, actual in (('import', schema.imports), ('include', schema.includes)):
            wanted = {f.path for k, f, _ in file.refs if k == kind}
            given = {next((f.path for f, s in schemas.items() if s is x), repr(x)) for x in actual}
            mon.check(given == wanted, f'references-{kind}', f'{file.path}: {kind}s {given} instead of {wanted}', **context)
    for file, schema in schemas.items():
        for target in reachable(file):
            for name, type in target.elements.items():
                mon.event('lookups')
                element = schema.get_element_by_name(name)
                mon.check(element is not None and element is schemas[target].elements[name], 'lookup',
                          f'{name} of {target.path} is {element} in {file.path}', **context)
        mon.check(schema.get_element_by_name('no such element') is None, 'lookup-unknown', 'Unknown element is found', **context)
    for file in rng.sample(files, min(3, len(files))):
        for name, type in file.elements.items():
            document(mon, rng, graph, generated, schemas[file], file, name, type, context)


def document(mon, rng, graph, generated, schema, file, name, type, context):
    """An instance document with types of several files."""
    obj = gen.random_obj(rng, type, graph.options)
    node = gen.document(obj, name, file.tns, graph.efd)
    text = gen.spell(rng, node, STYLE)
    mon.event('documents')
    mon.judged(text)
    cls = generated.classes[type]
    try:
        parsed = cls.parsexml(text)
        found = generated.differences(obj, parsed)
        mon.check(not found, 'parsed', f'{found[:3]}', document=text, **context)
        xml = generated.instance(obj, rng).xml(name, namespace=file.tns, elementFormDefault=schema.elementFormDefault)
    except ValueError as e:
        mon.violation('valid-refused', f'Valid document is refused: {e!r}', document=text, **context)
        return
    found = gen.compare_document(node, etree.fromstring(xml))
    mon.check(not found, 'rendered', f'{found[:3]}', document=text, rendered=xml, **context)
    holder = types.new_class('Holder', (xsd.ComplexType,), {}, lambda ns: ns.update({name: schema.elements[name]}))
    value = getattr(holder.parsexml(f'<h>{gen.plain(node)}</h>'), name)
    mon.check(isinstance(value, cls), 'element-type', f'{name} is read as {value}', document=text, **context)


def prepare(rng, **kwargs):
    graph = Graph(rng, **kwargs)
    names = xsdgen.Names(rng, graph.merged())
    return graph, names, graph.documents(names)


def run_cli(arguments, out):
    xsd2py.main([*arguments, out])
    # The file is closed when the parser's namespace is gone.
    with open(out, 'rb') as f:
        return f.read().decode()


def local(mon, rng, index):
    """Files on disk, with the API and with the program."""
    use_cli = rng.random() < 0.6
    graph, names, documents = prepare(rng, root_cycle=use_cli, absolute=rng.choice([0, 0, 0.3]), mixed=0.2)
    count(mon, graph)
    mon.event('mixed', bool(graph.remote))
    root = graph.files[0]
    context = {'graph': graph.files, 'documents': documents}
    with Scratch() as scratch:
        tree = os.path.join(scratch, 'tree')
        documents = placed(documents, tree)
        elsewhere = {f.path for f in graph.remote}
        serve({p: d for p, d in documents.items() if p in elsewhere})
        write(tree, {p: d for p, d in documents.items() if p not in elsewhere})
        os.makedirs(os.path.join(scratch, 'elsewhere', 'x'))
        path = os.path.join(tree, root.path)
        codes = []
        places = [os.path.dirname(path), tree, scratch, os.path.join(scratch, 'elsewhere', 'x'), '/']
        for place in rng.sample(places, 2):
            os.chdir(place)
            mon.event('cwd')
            if use_cli:
                mon.event('cli')
                argument = rng.choice([path, os.path.relpath(path), './' + os.path.relpath(path)])
                code = run_cli([argument], os.path.join(scratch, 'out.py'))
            elif place == os.path.dirname(path) and rng.random() < 0.5:
                code = xsd2py.generate_code_from_xsd(documents[root.path], encoding=None)
            else:
                cwd = rng.choice([os.path.dirname(path), os.path.dirname(os.path.relpath(path)) or '.'])
                code = xsd2py.generate_code_from_xsd(documents[root.path], cwd=cwd).decode()
            codes.append(without_time(code).strip())
        context['code'] = code
        mon.sample(graph=graph.files, code=code)
        mon.check(codes[0] == codes[1], 'depends-on-cwd', f'Code depends on the working directory: {places}', first=codes[0], **context)
        judge(mon, rng, graph, names, code, context)
        missing(mon, rng, graph, documents, tree, path)


def missing(mon, rng, graph, documents, tree, path):
    """A file which can not be read is an error."""
    victims = [f for f in reachable(graph.files[0]) if f is not graph.files[0] and f not in graph.remote]
    if not victims:
        return
    victim = rng.choice(victims)
    mon.event('missing')
    where = os.path.join(tree, victim.path)
    if rng.random() < 0.7:
        os.unlink(where)
        what = 'missing'
    else:
        with open(where, 'wb') as f:
            f.write(rng.choice([b'', documents[victim.path][:-3], b'not a schema']))
        what = 'broken'
    mon.judged('missing', victim.path, *[repr(f) for f in graph.files])
    try:
        code = xsd2py.generate_code_from_xsd(documents[graph.files[0].path], known_paths=[os.path.basename(path)], cwd=os.path.dirname(path))
    except Exception:
        return
    mon.violation(f'{what}-file', f'{victim.path} is {what} but there is no error', graph=graph.files, code=code)


def serve(documents, missing=None):
    """The server with these documents, the list of what is asked for."""
    server = loop.Server.get()
    asked = []

    def answer(exchange):
        asked.append(exchange.path)
        content = documents.get(exchange.path[len('/tree/'):]) if exchange.path.startswith('/tree/') else None
        if missing and exchange.path == f'/tree/{missing[0]}':
            return missing[1], {'Content-Type': 'text/html'}, missing[2]
        return (200, {'Content-Type': 'text/xml'}, content) if content is not None else (404, {}, b'not found')

    server.answer = answer
    return server, asked


def remote(mon, rng, index):
    """The same files served by HTTP."""
    options = {'absolute': rng.choice([0, 0, 0.3]), 'queries': rng.random() < 0.3}
    graph, names, documents = prepare(rng, **options)
    while any(' ' in f.path for f in graph.files):
        graph, names, documents = prepare(rng, **options)
    count(mon, graph)
    mon.event('remote')
    mon.event('queries', options['queries'])
    # An absolute location has the name of the server or only the path.
    documents = placed(documents, rng.choice([f'http://{loop.Server.get().host}/tree', '/tree']))
    victim = rng.choice([f.path for f in reachable(graph.files[0])]) if rng.random() < 0.25 else None
    page = rng.choice([b'<html><body>not found</body></html>', b'not found', b'', documents[victim] if victim else b''])
    server, asked = serve(documents, victim and (victim, rng.choice([404, 410, 403, 500, 503]), page))
    url = f'http://{server.host}/tree/{graph.files[0].path}'
    context = {'graph': graph.files, 'documents': documents, 'url': url}
    with Scratch() as scratch:
        if victim:
            mon.event('missing-remote')
            mon.judged('missing-remote', victim, repr(page), *[repr(f) for f in graph.files])
            try:
                run_cli([url], os.path.join(scratch, 'out.py'))
            except Exception:
                return
            mon.violation('missing-remote', f'The server has no {victim} but there is no error', **context)
            return
        code = run_cli([url], os.path.join(scratch, 'out.py'))
    context['code'] = code
    mon.check(not server.errors, 'server', f'{server.errors}')
    expected = {f'/tree/{f.path}' for f in reachable(graph.files[0])}
    mon.check(set(asked) == expected, 'requests', f'{set(asked)} instead of {expected}', **context)
    judge(mon, rng, graph, names, code, context)


def judge_service(mon, rng, graph, names, code, context, number, input, output):
    judge(mon, rng, graph, names, code, context, ['PortServiceStub'])
    with xsdgen.Module(code) as module:
        services = [x for x in vars(module).values() if isinstance(x, soap.Service)]
        if mon.check(len(services) == 1, 'services', f'{len(services)} services', **context):
            method, = services[0].methods
            version = {'': soap11, '12': soap12}[number]
            mon.check(services[0].version.ENVELOPE_NAMESPACE == version.ENVELOPE_NAMESPACE, 'soap-version', f'{services[0].version}', **context)
            mon.check((method.input, method.output, method.soapAction) == (input, output, 'urn:run'), 'method', f'{vars(method)}', **context)
            for name in {input, output}:
                found = [x for x in services[0].schemas if x.get_element_by_name(name)]
                mon.check(found, 'service-element', f'{name} is in no schema of the service', **context)


def wsdl(mon, rng, index):
    """A WSDL with schemas of its own which refer to files, which might come from imported WSDL files."""
    graph, names, documents = prepare(rng, root_cycle=False, absolute=rng.choice([0, 0, 0.3]))
    while any('@ROOT@' in x for _, _, x in graph.files[0].refs):
        # The schema of the root is part of a WSDL.
        graph, names, documents = prepare(rng, root_cycle=False)
    count(mon, graph)
    mon.event('wsdl')
    root = graph.files[0]
    tns = 'urn:service'
    parts = {'schema': documents.pop(root.path)}
    # The directories of the WSDL documents: the schema of the root is embedded in the last one.
    folder = os.path.dirname(root.path)
    chain = [os.path.join(folder, 'service.wsdl')]
    context = {'graph': graph.files, 'documents': documents, 'schema': parts['schema']}
    # Files of the same name in different directories are different files.
    same = rng.random() < 0.4
    for k in range(rng.choice([0, 0, 1, 1, 2, 3])):
        # The importing document, everything but the service is in the imported ones.
        path = os.path.normpath(os.path.join(rng.choice(['', 'top', folder, 'other', 'top/other']), 'service.wsdl' if same else f'outer{k}.wsdl'))
        if path not in chain:
            chain.append(path)
    level = rng.random() < 0.2
    if level:
        # Every document has the same reference but each one in another directory.
        chain = [os.path.join(folder, *['next'] * k, 'service.wsdl') for k in range(rng.randint(3, 4))]
        mon.event('wsdl-same-references')
    if len({os.path.basename(p) for p in chain}) < len(chain):
        mon.event('wsdl-same-names')
    mon.event('wsdl-imports', len(chain) - 1)
    names_ = list(root.elements)
    input, output = rng.choice(names_), rng.choice(names_)
    embedded = etree.fromstring(parts['schema'])
    number = rng.choice(['', '12'])
    mon.event(f'soap{number}')
    S, W = f'http://schemas.xmlsoap.org/wsdl/soap{number}/', 'http://schemas.xmlsoap.org/wsdl/'
    embedded = etree.tostring(embedded).decode()
    types_ = f'<w:types>{embedded}</w:types>'
    messages = (f'<w:message name="In"><w:part name="body" element="e:{input}"/></w:message>'
                f'<w:message name="Out"><w:part name="body" element="e:{output}"/></w:message>')
    port_type = '<w:portType name="PT"><w:operation name="run"><w:input message="t:In"/><w:output message="t:Out"/></w:operation></w:portType>'
    binding = (f'<w:binding name="B" type="t:PT"><s:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/><w:operation name="run">'
               '<s:operation soapAction="urn:run"/><w:input><s:body use="literal"/></w:input><w:output><s:body use="literal"/></w:output></w:operation></w:binding>')
    service = '<w:service name="Svc"><w:port name="Port" binding="t:B"><s:address location="http://localhost/x"/></w:port></w:service>'
    pieces = [types_, messages, port_type, binding, service]
    # Every document of the chain defines some of the pieces.
    cuts = sorted(rng.randint(1, 5) for _ in chain[1:]) + [5]
    flat = not level and rng.random() < 0.4
    files, start = {}, 0
    for k, (path, end) in enumerate(zip(chain, cuts)):
        imports = ''
        if k:
            # All others are imported by the last one, or every one by the next one.
            for other in chain[:k] if flat and path == chain[-1] else [] if flat else [chain[k - 1]]:
                location = os.path.relpath(other, os.path.dirname(path) or '.')
                if rng.random() < 0.15:
                    mon.event('wsdl-absolute')
                    location = f'@ROOT@/{other}'
                imports += f'<w:import namespace="{tns}" location="{location}"/>' * rng.choice([1, 1, 2])
        files[path] = (f'<w:definitions xmlns:w="{W}" xmlns:s="{S}" xmlns:t="{tns}" xmlns:e="{root.tns}" targetNamespace="{tns}">'
                       f'{imports}{"".join(pieces[start:end])}</w:definitions>').encode()
        start = end
    context.update(wsdl=files)
    target = rng.choice(['client', 'server'])
    served = rng.random() < 0.5 and not any(' ' in f.path for f in graph.files)
    with Scratch() as scratch:
        if served:
            mon.event('remote-wsdl')
            server, asked = serve(placed({**documents, **files}, rng.choice([f'http://{loop.Server.get().host}/tree', '/tree'])))
            out = os.path.join(scratch, 'out.py')
            wsdl2py.main(['-' + target[0], f'http://{server.host}/tree/{chain[-1]}', out])
            with open(out, 'rb') as f:
                code = f.read().decode()
            context['code'] = code
            mon.check(not server.errors, 'server', f'{server.errors}')
            expected = {f'/tree/{f.path}' for f in reachable(root) if f is not root} | {f'/tree/{f}' for f in files}
            mon.check(set(asked) == expected, 'requests', f'{set(asked)} instead of {expected}', **context)
            judge_service(mon, rng, graph, names, code, context, number, input, output)
            return
        tree = os.path.join(scratch, 'tree')
        os.makedirs(os.path.join(scratch, 'elsewhere'))
        documents, files = placed(documents, tree), placed(files, tree)
        write(tree, {**documents, **files})
        path = os.path.join(tree, chain[-1])
        codes = []
        for place in rng.sample([os.path.dirname(path), tree, scratch, os.path.join(scratch, 'elsewhere')], 2):
            os.chdir(place)
            mon.event('cwd')
            if rng.random() < 0.6:
                mon.event('cli')
                out = os.path.join(scratch, 'out.py')
                wsdl2py.main(['-' + target[0], rng.choice([path, os.path.relpath(path)]), out])
                with open(out, 'rb') as f:
                    code = f.read().decode()
            else:
                code = wsdl2py.generate_code_from_wsdl(files[chain[-1]], target, cwd=os.path.dirname(path)).decode()
            codes.append(without_time(code).strip())
        context['code'] = code
        mon.check(codes[0] == codes[1], 'depends-on-cwd', 'Code depends on the working directory', first=codes[0], **context)
        judge_service(mon, rng, graph, names, code, context, number, input, output)
        if len(chain) > 1 and rng.random() < 0.5:
            mon.event('missing')
            os.unlink(os.path.join(tree, rng.choice(chain[:-1])))
            try:
                wsdl2py.generate_code_from_wsdl(files[chain[-1]], target, cwd=os.path.dirname(path))
            except Exception:
                return
            mon.violation('missing-wsdl', 'An imported WSDL is missing but there is no error', **context)


def embedded(mon, rng, index):
    """A WSDL of which the schemas refer to each other, in any order."""
    graph, names, documents = prepare(rng, root_cycle=False, cycles=0, embedded=True)
    count(mon, graph)
    mon.event('embedded', len(graph.files))
    root = graph.files[0]
    names_ = list(root.elements)
    input, output = rng.choice(names_), rng.choice(names_)
    order = rng.sample(graph.files, len(graph.files))
    mon.event('embedded-unordered', any(t in order[k:] for k, f in enumerate(order) for t in f.targets()))
    number = rng.choice(['', '12'])
    S, W = f'http://schemas.xmlsoap.org/wsdl/soap{number}/', 'http://schemas.xmlsoap.org/wsdl/'
    schemas = [etree.tostring(etree.fromstring(documents[f.path])).decode() for f in order]
    # Some are part of imported documents.
    imported, imports = {}, ''
    for name in rng.sample(['types.wsdl', 'other/types.wsdl', 'more.wsdl'], rng.choice([0, 0, 1, 2])):
        mon.event('embedded-imported')
        some = [schemas.pop(rng.randrange(len(schemas))) for _ in range(rng.randint(0, len(schemas)))]
        imported[name] = f'<w:definitions xmlns:w="{W}" targetNamespace="urn:service"><w:types>{"".join(some)}</w:types></w:definitions>'.encode()
        imports += f'<w:import namespace="urn:service" location="{name}"/>'
    types = f'<w:types>{"".join(schemas)}</w:types>' if schemas or rng.random() < 0.5 else ''
    text = (f'<w:definitions xmlns:w="{W}" xmlns:s="{S}" xmlns:t="urn:service" xmlns:e="{root.tns}" targetNamespace="urn:service">{imports}{types}'
            f'<w:message name="In"><w:part name="body" element="e:{input}"/></w:message><w:message name="Out"><w:part name="body" element="e:{output}"/></w:message>'
            '<w:portType name="PT"><w:operation name="run"><w:input message="t:In"/><w:output message="t:Out"/></w:operation></w:portType>'
            '<w:binding name="B" type="t:PT"><s:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/><w:operation name="run">'
            '<s:operation soapAction="urn:run"/><w:input><s:body use="literal"/></w:input><w:output><s:body use="literal"/></w:output></w:operation></w:binding>'
            '<w:service name="Svc"><w:port name="Port" binding="t:B"><s:address location="http://localhost/x"/></w:port></w:service></w:definitions>').encode()
    context = {'graph': graph.files, 'wsdl': text, 'imported': imported}
    with Scratch() as scratch:
        write(scratch, imported)
        code = wsdl2py.generate_code_from_wsdl(text, rng.choice(['client', 'server']), cwd=scratch).decode()
    context['code'] = code
    judge_service(mon, rng, graph, names, code, context, number, input, output)


def groups(tier):
    n = 50 if tier == 'thorough' else 1
    return [Group('local', local, 1200 * n), Group('remote', remote, 150 * n), Group('wsdl', wsdl, 400 * n), Group('embedded', embedded, 200 * n)]
