"""Runner: executes the scenarios of a property against the real soapfish and judges what the monitors observed."""
import concurrent.futures
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')
CPU_LIMIT = 60  # seconds of CPU for a single case, they need milliseconds.


class Violation(Exception):
    """Raised by an oracle to stop a case, everything else is recorded with Monitor.violation()."""

    def __init__(self, key, message, **detail):
        super().__init__(message)
        self.key, self.message, self.detail = key, message, detail


class CaseTimeout(BaseException):
    pass


class Malformed(ValueError):
    """Raised while an oracle reads what the code under test has produced: it is not the fault of the oracle."""

    _vf_deliberate = True


def deliberate(exception):
    """Mark an exception which a workload raises: it is a violation if the code under test lets it escape."""
    exception._vf_deliberate = True
    return exception


def show(value, limit=1500):
    if isinstance(value, bytes):
        value = value.decode('utf8', 'backslashreplace')
    elif not isinstance(value, str):
        value = repr(value)
    return value if len(value) <= limit else value[:limit] + f'... ({len(value)} characters)'


class Monitor:
    """Collects what the oracles observed during one or more cases."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.evaluations = 0
        self.case = None

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def judged(self, *key):
        """An oracle judged one observation, key identifies it if it was not trivial."""
        self.evaluations += 1
        if key:
            self.distinct.add(hashlib.blake2b(repr(key).encode('utf8', 'backslashreplace'), digest_size=8).digest())

    def sample(self, **detail):
        if len(self.samples) < 2:
            self.samples.append({'case': '/'.join(map(str, self.case)), **{k: show(v, 600) for k, v in detail.items()}})

    def violation(self, key, message, **detail):
        self.event('violation:' + key)
        if sum(1 for v in self.violations if v['key'] == key) < 2:
            self.violations.append({'key': key, 'message': show(message), 'case': list(self.case),
                                    'detail': {k: show(v, 4000) for k, v in detail.items()}})

    def check(self, condition, key, message, **detail):
        if not condition:
            self.violation(key, message, **detail)
        return bool(condition)

    def raises(self, exceptions, key, message, func, *args, **kwargs):
        """The call must raise one of these exceptions."""
        try:
            value = func(*args, **kwargs)
        except exceptions:
            return True
        except Exception as e:
            self.violation(key + ':wrong-exception', f'{message}: raised {e!r}', trace=traceback.format_exc())
            return False
        self.violation(key, f'{message}: returned {show(value, 200)}')
        return False


class LineReach:
    """Lines of soapfish executed, every line costs one event."""

    def __init__(self):
        self.lines = set()
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        prefix = os.path.join(REPO, 'soapfish') + os.sep

        def line(code, number):
            if code.co_filename.startswith(prefix):
                self.lines.add((code.co_filename[len(prefix):], number))
            return mon.DISABLE

        try:
            mon.use_tool_id(4, 'vf')
        except ValueError:
            return
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)


_reach = None
_module = None


def _in_soapfish(tb):
    """Was the exception raised by the code under test (or code generated by it)?"""
    prefix = os.path.join(REPO, 'soapfish') + os.sep
    frames = traceback.extract_tb(tb)
    for frame in reversed(frames):
        if frame.filename.startswith(prefix):
            return f'{os.path.basename(frame.filename)}:{frame.name}'
        if frame.filename.startswith(ROOT + os.sep):
            return None
    return None


def run_case(module, mon, group, index):
    mon.case = (group.name, index)
    rng = random.Random(f'{module.PROPERTY}/{group.name}/{index}/{mon.seed}')

    def expired(signum, frame):
        raise CaseTimeout

    signal.signal(signal.SIGVTALRM, expired)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        group.func(mon, rng, index)
    except Violation as e:
        mon.violation(e.key, e.message, **e.detail)
    except CaseTimeout:
        mon.violation('does-not-terminate', f'Case used more than {CPU_LIMIT} seconds of CPU', trace=traceback.format_exc())
    except Exception as e:
        where = _in_soapfish(e.__traceback__)
        if where is None and (getattr(e, '_vf_deliberate', False) or type(e).__module__.startswith('soapfish.')):
            where = 'escaped'
        if where is None:
            raise
        mon.violation(f'unexpected-{type(e).__name__}', f'{type(e).__name__}: {show(str(e), 300)} in {where}',
                      trace=traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    mon.event('cases:' + group.name)


CONTEXT = multiprocessing.get_context('fork')
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def _work(args):
    global _reach
    name, tier, seed, chunk = args
    if _reach is None:
        _reach = LineReach()
    module = load(name)
    mon = Monitor(tier, seed)
    groups = {g.name: g for g in module.groups(tier)}
    error = None
    for group, index in chunk:
        try:
            run_case(module, mon, groups[group], index)
        except Exception:
            # What was observed by then counts all the same.
            error = error or f'{mon.case}: {traceback.format_exc()}'
    return {'error': error, 'events': mon.events, 'distinct': mon.distinct, 'samples': mon.samples, 'violations': mon.violations,
            'evaluations': mon.evaluations, 'lines': _reach.lines}


def _send(connection, args):
    connection.send(_work(args))
    connection.close()


def _alone(args):
    """Do the work in a process of its own, returns (result, signal)."""
    receiver, sender = CONTEXT.Pipe(False)
    process = CONTEXT.Process(target=_send, args=(sender, args))
    process.start()
    sender.close()
    try:
        result = receiver.recv()
    except EOFError:
        result = None
    process.join()
    return result, -process.exitcode if (process.exitcode or 0) < 0 else 0


def _after_crash(chunks):
    """A worker process died: find the cases which crash the interpreter, do the rest of the work."""
    crashes = 0
    for name, tier, seed, cases in chunks:
        result, number = _alone((name, tier, seed, cases))
        if result is not None:
            yield result
            continue
        for case in cases:
            result, number = _alone((name, tier, seed, [case]))
            if result is None and number in CRASHES and _alone((name, tier, seed, [case]))[1] == number:
                crashes += 1
                yield {'events': {}, 'distinct': set(), 'samples': [], 'evaluations': 1, 'lines': set(), 'violations': [{
                    'key': 'process-crash', 'message': f'The interpreter is ended by {signal.Signals(number).name}', 'case': case, 'detail': {}}]}
            else:
                yield result or {'error': f'{case}: worker process ended by signal {number}'}
        if crashes > 2:
            return


class Group:
    """A family of cases: func(mon, rng, index) for index in range(n)."""

    def __init__(self, name, func, n):
        self.name, self.func, self.n = name, func, n


def setup_path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import jinja2.ext  # noqa: F401 The dependencies are not recompiled.
    import lxml.etree  # noqa: F401
    import requests  # noqa: F401

    logging.getLogger().addHandler(logging.NullHandler())
    # Never trust a .pyc file, the source code could have been replaced within the same second.
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(ROOT, 'no-such-directory')
    try:
        import soapfish
        for name in ('soap', 'soap_dispatch', 'py2wsdl', 'wsdl2py', 'xsd2py', 'py2xsd', 'middlewares', 'flask_', 'django_', 'wsa'):
            importlib.import_module(f'soapfish.{name}')
    finally:
        sys.pycache_prefix = None
    assert soapfish.__path__[0].startswith(REPO), soapfish.__path__


def remember_templates():
    """Compile every Jinja template only once per process, soapfish does it for every file it generates."""
    import jinja2
    original = jinja2.Environment.compile
    if hasattr(original, 'vf_cache'):
        return
    cache = {}
    settings = ['block_start_string', 'block_end_string', 'variable_start_string', 'variable_end_string', 'comment_start_string',
                'comment_end_string', 'line_statement_prefix', 'line_comment_prefix', 'trim_blocks', 'lstrip_blocks', 'newline_sequence',
                'keep_trailing_newline', 'optimized', 'autoescape', 'is_async', 'sandboxed']

    def compile(self, source, *args, **kwargs):
        if not isinstance(source, str):
            return original(self, source, *args, **kwargs)
        key = repr((source, args, sorted(kwargs.items()), [getattr(self, x, None) for x in settings], sorted(self.extensions),
                    sorted(self.filters), sorted(self.tests), type(self)))
        if key not in cache:
            cache[key] = original(self, source, *args, **kwargs)
        return cache[key]

    compile.vf_cache = cache
    jinja2.Environment.compile = compile


def load(name):
    setup_path()
    remember_templates()
    return importlib.import_module(f'vf.checks.{name.lower()}')


def known_findings(name):
    """Keys of the known findings of a property with their description."""
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('known: '):
                    words = line.split(None, 3)
                    if words[1] == f'property={name}' and words[2].startswith('key='):
                        known[words[2][4:]] = words[3].strip()
    return known


def run(name, tier, seed, workers=None):
    start = time.time()
    module = load(name)
    groups = module.groups(tier)
    cases = [(g.name, i) for g in groups for i in range(g.n)]
    workers = workers or min(8, os.cpu_count() or 1)
    random.Random(seed).shuffle(cases)
    size = max(1, min(getattr(module, 'CHUNK', 50), len(cases) // (workers * 4) + 1))
    chunks = [(name, tier, seed, cases[i:i + size]) for i in range(0, len(cases), size)]

    events, distinct, samples, violations, evaluations, lines, errors = {}, set(), [], [], 0, set(), []
    def add(result):
        nonlocal distinct, lines, evaluations
        if result.get('error'):
            errors.append(result['error'])
        if 'events' not in result:
            return
        for key, n in result['events'].items():
            events[key] = events.get(key, 0) + n
        distinct |= result['distinct']
        lines |= result['lines']
        evaluations += result['evaluations']
        violations.extend(result['violations'])
        if len(samples) < 4:
            samples.extend(result['samples'])

    todo = dict(enumerate(chunks))
    scratch = tempfile.mkdtemp(prefix='vf-')
    tempfile.tempdir = scratch
    try:
        with concurrent.futures.ProcessPoolExecutor(workers, mp_context=CONTEXT) as pool:
            futures = {pool.submit(_work, chunk): i for i, chunk in todo.items()}
            for future in concurrent.futures.as_completed(futures):
                result = future.result()
                del todo[futures[future]]
                add(result)
    except concurrent.futures.process.BrokenProcessPool:
        for result in _after_crash(list(todo.values())):
            add(result)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(name)
    unknown = {}
    for v in sorted(violations, key=lambda v: (v['key'], v['case'])):
        if v['key'] not in known:
            unknown.setdefault(v['key'], v)
    missing = [f'{event}: {events.get(event, 0)} < {n}' for event, n in getattr(module, 'REQUIRED', {}).items()
               if events.get(event, 0) < n]

    os.makedirs(EVIDENCE, exist_ok=True)
    by_file = {}
    for filename, number in lines:
        by_file.setdefault(filename, set()).add(number)
    evidence = {
        'property': name,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': module.RULE,
            'samples': samples[:4] or [{'note': 'no sample recorded'}],
            'cases': len(cases),
            'events': dict(sorted(events.items())),
            'soapfish_lines_executed': {k: len(v) for k, v in sorted(by_file.items())},
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - start, 2),
        'violations': len(unknown),
    }
    with open(os.path.join(EVIDENCE, f'{name}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for key, description in known.items():
        if any(v['key'] == key for v in violations):
            print(f'KNOWN-FINDING: property={name} {description}')
    for n, (key, v) in enumerate(unknown.items()):
        path = os.path.join(EVIDENCE, f'replay-{name}-{n}.json')
        with open(path, 'w') as f:
            json.dump({'property': name, 'tier': tier, 'seed': seed, **v}, f, indent=1)
        if n < 8:
            print(f'VIOLATION property={name} replay={path}')
            print(f'  {key}: {v["message"]} (case {"/".join(map(str, v["case"]))})')
    print(f'{name} {tier} seed={seed}: {len(cases)} cases, {evaluations} judged, {len(distinct)} distinct, '
          f'{len(unknown)} violations, {evidence["wall_s"]} s')
    if errors:
        print('HARNESS ERROR\n' + errors[0], file=sys.stderr)
    if unknown:
        return 1
    if errors:
        return 2
    if missing or not evaluations:
        print('INCONCLUSIVE, the monitor was not reached: ' + ', '.join(missing), file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    module = load(v['property'])
    mon = Monitor(v['tier'], v['seed'])
    group = next(g for g in module.groups(v['tier']) if g.name == v['case'][0])
    run_case(module, mon, group, v['case'][1])
    for x in mon.violations:
        print(f'VIOLATION property={v["property"]} replay={path}\n  {x["key"]}: {x["message"]}')
        for key, value in x['detail'].items():
            print(f'  {key}: {value}')
    return 1 if mon.violations else 0
