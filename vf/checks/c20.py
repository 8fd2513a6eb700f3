"""C20: the command-line tools give what the API gives, reproducibly."""
import copy
import os
import re
import shutil
import subprocess
import sys
import tempfile

from lxml import etree

from soapfish import py2wsdl, py2xsd, wsdl2py, xsd2py
from vf import gen, loop, xsdgen
from vf.checks import c06, c08, c09
from vf.core import REPO, Group

PROPERTY = 'C20'
RULE = ('A case runs one of the four tools as processes of their own with different hash seeds, locales, working directories and forms of '
        'input and output and compares the result with the API call made here; distinct by tool, form and input.')
REQUIRED = {'processes': 300, 'tool:xsd2py': 30, 'tool:wsdl2py': 30, 'tool:py2xsd': 30, 'tool:py2wsdl': 30, 'input:path': 60, 'input:stdin': 20,
            'input:url': 8, 'output:file': 60, 'output:stdout': 60, 'output:overwritten': 15, 'several-files': 10, 'failing': 40, 'non-ascii': 20,
            'hash-seeds': 100, 'target:client': 10, 'target:server': 10, 'use-wsa': 5}
CHUNK = 4
ENTRY = ['-m soapfish.{}', '-c import sys; from soapfish.{} import main; sys.exit(main())', '-c import sys; from soapfish import {0}; sys.exit({0}.main(sys.argv[1:]))']
LOCALES = [{}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'PYTHONIOENCODING': 'ascii'}, {'PYTHONIOENCODING': 'utf-16'},
           {'TZ': 'Asia/Tokyo'}]


class Run:
    def __init__(self, rng, tool, arguments, cwd, data=b''):
        self.tool, self.arguments, self.cwd = tool, arguments, cwd
        self.seed = rng.choice(['0', '1', '42', 'random', str(rng.randint(2, 4294967295))])
        option, program = rng.choice(ENTRY).format(tool).split(' ', 1)
        self.environment = {
            'PATH': os.environ.get('PATH', ''), 'HOME': os.environ.get('HOME', '/'), 'NO_PROXY': '*', 'no_proxy': '*', 'PYTHONPATH': REPO,
            'PYTHONHASHSEED': self.seed,
            # Compiled by the first process, the sources do not change while the check runs.
            'PYTHONPYCACHEPREFIX': os.path.join(tempfile.gettempdir(), 'pycache'),
            **rng.choice(LOCALES),
        }
        command = [sys.executable, *rng.choice([[], ['-s'], ['-O']]), option, program, *arguments]
        self.process = subprocess.Popen(command, cwd=cwd, env=self.environment, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.data = data

    def wait(self):
        self.stdout, self.stderr = self.process.communicate(self.data)
        self.status = self.process.returncode

    def __repr__(self):
        environment = {k: v for k, v in self.environment.items() if k in ('LC_ALL', 'PYTHONHASHSEED', 'PYTHONIOENCODING', 'TZ')}
        return f'{self.tool} {self.arguments} in {self.cwd} with {environment}'


def snapshot(directory):
    found = {}
    for path, directories, files in os.walk(directory):
        for name in files:
            with open(os.path.join(path, name), 'rb') as f:
                found[os.path.relpath(os.path.join(path, name), directory)] = f.read()
        for name in directories:
            found[os.path.relpath(os.path.join(path, name), directory)] = None
    return found


def without_time(code):
    return re.sub(rb'(# +Note: Generated by \S+ at )[^\n]*', rb'\1', code)


def compare(mon, rng, tool, tree, path, options, wanted, context, url=None):
    """Run a tool twice at the same time and compare what it writes with the result of the API."""
    mon.event(f'tool:{tool}')
    mon.event('non-ascii', not wanted.isascii())
    before = snapshot(tree)
    with open(os.path.join(tree, path), 'rb') as f:
        data = f.read()
    stdin = tool in ('xsd2py', 'wsdl2py')
    runs, outputs = [], []
    for i in range(2):
        form = rng.choice(['path', 'path', 'stdin', 'url'] if url else ['path', 'stdin'] if stdin else ['path'])
        cwd = os.path.join(tree, os.path.dirname(path)) if form == 'stdin' else rng.choice([tree, os.path.join(tree, os.path.dirname(path)), '/'])
        mon.event(f'input:{form}')
        full = os.path.join(tree, path)
        arguments = list(options)
        source = {'stdin': '-', 'url': url}.get(form) or rng.choice([full, os.path.relpath(full, cwd), os.path.join(os.path.dirname(full), '.', os.path.basename(full))])
        output = rng.choice([None, 'file', 'dash' if i else None])
        name = None
        arguments.append(source)
        if output == 'file':
            mon.event('output:file')
            name = os.path.join(tree, f'out{i}.x')
            if rng.random() < 0.4:
                mon.event('output:overwritten')
                with open(name, 'wb') as f:
                    f.write(b'# older content\n' * rng.choice([1, 5000]))
            arguments.append(name if rng.random() < 0.5 else os.path.relpath(name, cwd))
        else:
            mon.event('output:stdout')
            if output == 'dash':
                arguments.append('-')
        if len(arguments) > 2 and rng.random() < 0.3:
            # Options may be anywhere.
            arguments = [x for x in arguments if x not in options] + list(options)
        mon.event('processes')
        runs.append(Run(rng, tool, arguments, cwd, data if form == 'stdin' else b''))
        outputs.append(name)
    for run in runs:
        run.wait()
    mon.event('hash-seeds', len({r.seed for r in runs}) > 1)
    after = snapshot(tree)
    for run, name in zip(runs, outputs):
        mon.judged(tool, options, run.arguments[-1] == '-', bool(name), wanted)
        details = {'run': run, 'stderr': run.stderr, **context}
        if not mon.check(run.status == 0, 'status', f'{run} ends with {run.status}: {run.stderr[-300:]}', **details):
            continue
        found = after.get(os.path.relpath(name, tree)) if name else run.stdout
        if name:
            mon.check(run.stdout == b'', 'stdout', f'{run} writes to standard output, too', stdout=run.stdout, **details)
        mon.check(found is not None and without_time(found) == without_time(wanted), 'output', f'{run} does not give what the API gives', found=found,
                  wanted=wanted, **details)
    extra = {k for k in after if k not in before and os.path.join(tree, k) not in outputs} | {k for k in before if after.get(k) != before[k] and os.path.join(tree, k) not in outputs}
    mon.check(not extra, 'files', f'Other files are changed or left behind: {sorted(extra)}', runs=runs, **context)


# --- Sources -----------------------------------------------------------------
def options():
    return gen.Options(tns=1, two_tns=0, group=0, override=0, default=0, renamed=0, swapped=0, narrow=True, attribute_inline=0, attribute_group=0)


def random_xsd(rng):
    model = xsdgen.random_model(rng, options(), c06.add_elements)
    return xsdgen.Writer(rng, model).document()


def random_wsdl(rng, **kwargs):
    while True:
        description = c08.Description(rng, **kwargs)
        if not any(m.groups for m in description.models):
            return description.write()


def split(rng, data):
    """Move parts of a WSDL to files which are imported."""
    root = etree.fromstring(data)
    names = ['', 'part.wsdl', 'more/part.wsdl'][:rng.choice([2, 2, 3])]
    copies = {name: etree.Element(root.tag, root.attrib, nsmap=root.nsmap) for name in names}
    W = '{http://schemas.xmlsoap.org/wsdl/}'
    for child in root:
        if child.tag == W + 'types':
            # Every file might have schemas.
            homes = {}
            for schema in child:
                name = rng.choice(names)
                if name not in homes:
                    homes[name] = etree.SubElement(copies[name], child.tag)
                homes[name].append(copy.deepcopy(schema))
        elif child.tag == W + 'service' and rng.random() < 0.5:
            # One service per port.
            for i, port in enumerate(child.findall(W + 'port')):
                service = etree.SubElement(copies[rng.choice(names)], child.tag, {**child.attrib, 'name': f'{child.get("name")}{i}'})
                service.append(copy.deepcopy(port))
        else:
            copies[rng.choice(names)].append(copy.deepcopy(child))
    for name in names[1:]:
        by, location = ('more/part.wsdl', '../part.wsdl') if len(names) == 3 and name == 'part.wsdl' and rng.random() < 0.4 else ('', name)
        copies[by].insert(0, etree.Element(W + 'import', namespace=root.get('targetNamespace'), location=location))
    return {name: etree.tostring(x) for name, x in copies.items()}


def put(tree, path, data):
    os.makedirs(os.path.join(tree, os.path.dirname(path)), exist_ok=True)
    with open(os.path.join(tree, path), 'wb') as f:
        f.write(data)


def place(rng, extension):
    return os.path.join(rng.choice(['', 'sub', 'a b/c']), rng.choice(['service', 'Types-2', 'f\xfcr', 'x.y']) + extension)


def serve(rng, tree):
    """The files of a directory by HTTP."""
    web = loop.Server.get()

    def answer(exchange):
        path = os.path.join(tree, exchange.path.lstrip('/'))
        if not os.path.isfile(path):
            return 404, {}, b''
        with open(path, 'rb') as f:
            return 200, {}, f.read()
    web.answer = answer
    return f'http://{web.host}/'


class Tree:
    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='vf-c20-'))
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def xsd_to_py(mon, rng, index):
    with Tree() as tree:
        if rng.random() < 0.4:
            mon.event('several-files')
            graph, names, documents = c09.prepare(rng, root_cycle=False)
            c09.write(tree, documents)
            path = graph.files[0].path
            context = {'files': documents}
            url = None
        else:
            data = random_xsd(rng)
            path = place(rng, '.xsd')
            put(tree, path, data)
            context = {'xsd': data}
            url = serve(rng, tree) + path if rng.random() < 0.7 and re.fullmatch(r'[\w/.-]+', path, re.ASCII) else None
        with open(os.path.join(tree, path), 'rb') as f:
            wanted = xsd2py.generate_code_from_xsd(f.read(), cwd=os.path.dirname(os.path.join(tree, path)))
        mon.sample(code=wanted)
        compare(mon, rng, 'xsd2py', tree, path, [], wanted.strip(), context, url)


def wsdl_to_py(mon, rng, index):
    with Tree() as tree:
        several = rng.random() < 0.6
        data = random_wsdl(rng, ports=(1, 2, 2), schemas=(1, 2, 3)) if several else random_wsdl(rng)
        path = place(rng, '.wsdl')
        context = {'wsdl': data}
        if several:
            mon.event('several-files')
            files = split(rng, data)
            data = files.pop('')
            context = {'wsdl': data, 'files': files}
            for name, content in files.items():
                put(tree, os.path.join(os.path.dirname(path), name), content)
        put(tree, path, data)
        url = serve(rng, tree) + path if rng.random() < 0.7 and re.fullmatch(r'[\w/.-]+', path, re.ASCII) else None
        target = rng.choice(['client', 'server'])
        use_wsa = rng.random() < 0.3
        mon.event('target:' + target)
        mon.event('use-wsa', use_wsa)
        flags = [rng.choice(['-' + target[0], '--' + target])] + ([rng.choice(['-w', '--use-wsa'])] if use_wsa else [])
        rng.shuffle(flags)
        wanted = wsdl2py.generate_code_from_wsdl(data, target, use_wsa, cwd=os.path.dirname(os.path.join(tree, path)))
        compare(mon, rng, 'wsdl2py', tree, path, flags, wanted.strip(), context, url)


def py_to_xsd(mon, rng, index):
    with Tree() as tree:
        code = xsd2py.generate_code_from_xsd(random_xsd(rng), cwd=tree)
        names = re.findall(rb'^Schema_\w+', code, re.M)
        code += b'\n\nSchema = ' + names[-1] + b'\n'
        path = place(rng, '.py')
        put(tree, path, code)
        with xsdgen.Module(code) as module:
            wanted = etree.tostring(py2xsd.generate_xsd(module.Schema), pretty_print=True)
        compare(mon, rng, 'py2xsd', tree, path, [], wanted, {'module': code})


def py_to_wsdl(mon, rng, index):
    with Tree() as tree:
        code = wsdl2py.generate_code_from_wsdl(random_wsdl(rng), rng.choice(['client', 'server']), cwd=tree)
        names = re.findall(rb'^(\w+_SERVICE) =', code, re.M)
        code += b'\n\nSERVICE = ' + rng.choice(names) + b'\n'
        path = place(rng, '.py')
        put(tree, path, code)
        with xsdgen.Module(code) as module:
            wanted = etree.tostring(py2wsdl.generate_wsdl(module.SERVICE), pretty_print=True)
        compare(mon, rng, 'py2wsdl', tree, path, [], wanted, {'module': code})


# --- Failures ----------------------------------------------------------------
BROKEN = {
    'xsd2py': [b'', b'<xs:schema', b'no xml', b'<a/><b/>', b'\xff\xfe\x00',
               b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:x"><xs:include schemaLocation="no-such-file.xsd"/></xs:schema>',
               b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:x"><xs:import namespace="urn:y" schemaLocation="no/such.xsd"/></xs:schema>'],
    'wsdl2py': [b'', b'<definitions', b'no xml', b'<definitions xmlns="http://schemas.xmlsoap.org/wsdl/"><import namespace="urn:x" location="no-such.wsdl"/></definitions>'],
    'py2xsd': [b'Schema = (', b'1 / 0', b'', b'Schema = 1', b'import no_such_module_', b'raise SystemExit(3)'],
    'py2wsdl': [b'SERVICE = (', b'1 / 0', b'', b'SERVICE = None', b'import no_such_module_', b'raise SystemExit(3)'],
}


def failing(mon, rng, index):
    tool = rng.choice(list(BROKEN))
    mon.event('failing')
    with Tree() as tree:
        kind = rng.choice(['missing', 'broken', 'broken', 'usage', 'output', 'directory'])
        options = ['-c'] if tool == 'wsdl2py' else []
        arguments = [*options, 'input']
        data = b''
        if kind == 'broken':
            data = rng.choice(BROKEN[tool])
            put(tree, 'input', data)
            if tool in ('xsd2py', 'wsdl2py') and rng.random() < 0.3:
                arguments[-1] = '-'
        elif kind == 'directory':
            os.mkdir(os.path.join(tree, 'input'))
        elif kind == 'usage':
            valid = {'xsd2py': random_xsd, 'wsdl2py': random_wsdl}.get(tool, lambda rng: b'Schema = SERVICE = None')(rng)
            put(tree, 'input', valid)
            arguments = rng.choice([[], ['--no-such-option', 'input'], [*options, 'input', 'output', 'more']]
                                   + ([['input'], ['-c', '-s', 'input'], ['-x', 'input']] if tool == 'wsdl2py' else []))
        elif kind == 'output':
            valid = {'xsd2py': random_xsd, 'wsdl2py': random_wsdl}.get(tool)
            put(tree, 'input', valid(rng) if valid else b'Schema = SERVICE = None')
            arguments.append(rng.choice(['no/such/directory/out', '.']))
        if rng.random() < 0.4 and kind in ('missing', 'broken', 'directory'):
            arguments.append('output')
        mon.event('processes')
        run = Run(rng, tool, arguments, tree, data)
        run.wait()
        mon.judged(tool, kind, arguments, data)
        mon.check(run.status != 0, 'failure-status', f'{run} with {kind} input ends with 0', data=data, stdout=run.stdout, stderr=run.stderr)


def groups(tier):
    n = 20 if tier == 'thorough' else 1
    return [Group('xsd2py', xsd_to_py, 50 * n), Group('wsdl2py', wsdl_to_py, 70 * n), Group('py2xsd', py_to_xsd, 40 * n),
            Group('py2wsdl', py_to_wsdl, 40 * n), Group('failing', failing, 60 * n)]
