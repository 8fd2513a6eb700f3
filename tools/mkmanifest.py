#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks which exist."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

MODEL = 'runtime monitoring: generated models and workloads on the real code, every execution judged by '
TECHNIQUES = {
    'C01': MODEL + 'a round-trip oracle over an independent value model',
    'C02': MODEL + 'an independent model of the document a declaration stands for',
    'C03': MODEL + 'comparison with the values the document was spelled from',
    'C04': MODEL + 'an independent model of types and facets, over operation histories',
    'C05': MODEL + 'an independent model of the XML Schema lexical mappings, with libxml2 as second monitor',
    'C06': MODEL + 'libxml2 running the generated XSD on rendered and mutated documents',
    'C07': MODEL + 'an independent XSD writer and instance model, with libxml2 on the reproduced documents',
    'C08': MODEL + 'an independent WSDL reader and writer',
    'C09': MODEL + 'a model of the file graph, with audited file access',
    'C10': MODEL + 'a call log of all handlers checked against a model of the routing',
    'C11': MODEL + 'an independent fault reader and a model of the exception path',
    'C12': 'runtime monitoring: hostile and mutated request streams against live dispatchers, trace checked online',
    'C13': 'runtime monitoring: event traces of random middleware and hook stacks checked against a reference interpreter',
    'C14': 'runtime monitoring: differential observation of three live server adapters, wsgiref.validate as monitor',
    'C15': 'runtime monitoring: recorded traffic between stub and loopback server checked against the handler log',
    'C16': 'runtime monitoring: crawling served documents, checked against the generated schemas and a rewrite model',
    'C17': 'runtime monitoring: multi-threaded stress with injected switches, per-request trace checker, bystander snapshots',
    'C18': 'runtime monitoring: interpreter audit hooks, loopback listener and canary files under attack documents',
    'C19': 'runtime monitoring: header traces of live request sequences checked against a model and the official schema',
    'C20': 'runtime monitoring: subprocess runs of the tools compared with the API over hash seeds and I/O forms',
    'C21': 'runtime monitoring: audit hooks and syntax-tree monitor on generated code with hostile text',
    'C22': MODEL + 'libxml2 and a call log of the handlers, over single-constraint mutations of requests',
}
NOTES = {
    'C01': 'Held on every generated model and instance; trusts the value model in vf/lex.py and the class builder in vf/gen.py.',
}
DEFAULT_NOTE = ('Held on every execution observed; the reach is that of the generators (see DESIGN.md). Trusts the reference model '
                'in /verif/vf, CPython and libxml2.')

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        ids = [json.loads(line)['id'] for line in f]
    done = [i for i in ids if os.path.exists(os.path.join(ROOT, 'vf', 'checks', f'{i.lower()}.py'))]
    manifest = {
        'version': 1,
        'setup_cmd': './check selftest',
        'checks': [{
            'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': TECHNIQUES[i], 'level': 'exploration',
            'level_note': NOTES.get(i, DEFAULT_NOTE),
        } for i in done],
        'not_applicable': [{'property': i, 'reason': 'the check is not built yet'} for i in ids if i not in done],
        'notes': 'No hooks: all observation is at the public API of the code in /repo, imported from its working tree.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(done), 'checks')
