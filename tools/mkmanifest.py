#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    'C01': 'property-based testing: generated hostile texts, own SQL lexer per database as oracle, round trip through SQLite, metamorphic rest-of-statement comparison',
    'C02': 'property-based testing: generated values, reference reader of literals per database, round trip through SQLite',
    'C03': 'property-based testing: generated names, reference splitter of identifiers, metamorphic rest-of-statement comparison, SQLite execution',
    'C04': 'stateful property-based testing: histories against a model of conditions and permission',
    'C05': 'property-based testing: generated condition trees, three-valued-logic reference evaluator, SQLite execution',
    'C06': 'property-based testing: each relation with generated values against a reference evaluator and SQLite, metamorphic relation of styles',
    'C07': 'metamorphic property-based testing: the same items in all styles of arguments, model of order, inputs unchanged',
    'C08': 'stateful model-based testing: histories of SELECT calls, own SQL parser, reference syntax tree, commutation of calls',
    'C09': 'stateful metamorphic testing: histories with and without looking at objects',
    'C10': 'stateful model-based testing: several live queries and copies, each against its own model',
    'C11': 'property-based testing: pairs of queries, equality against rendering, single-change mutation of histories',
    'C12': 'model-based property testing: generated joins against a reference tree, SQLite execution against nested-loop joins',
    'C13': 'property-based testing: generated rows, executed on SQLite and compared with a table model, parsed on the other databases',
    'C14': 'model-based property testing: UPDATE and DELETE executed on SQLite against a table model, reference tree on all databases',
    'C15': 'model-based property testing: upserts against a reference tree per database, SQLite execution',
    'C16': 'model-based property testing: union trees against bag/set semantics on SQLite and reference trees',
    'C17': 'metamorphic property-based testing: subquery text substituted into templates of every place',
    'C18': 'model-based property testing: generated functions against a reference tree, SQLite execution',
    'C19': 'stateful model-based testing: histories of option calls with has() after each step',
    'C20': 'stateful model-based testing: histories mixing configure, building and rendering; new processes',
    'C21': 'property-based testing: wrong values in every position, expected exception and unchanged query',
    'C22': 'metamorphic property-based testing: marker replaced by generated text in every position',
    'C23': 'stateful model-based testing: sorting and paging histories against a reference tree and SQLite execution against Python sorting',
    'C24': 'concurrency testing with generated schedules: a controlled scheduler switches threads at chosen steps of the library, differential oracle against single-threaded runs',
    'C25': 'stateful model-based testing with injected failures: unrenderable values and failing generators at random points of histories',
}

checks = []
for pid in sorted(TECHNIQUE):
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py %s' % pid,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': TECHNIQUE[pid],
        'level': 'exploration',
        'level_note': 'Held on all generated cases (numbers, rule of non-trivial ones and samples in the evidence file), not a proof. Trusted: the lexer, parser and model in '
                      '/verif/vlib, written from the documentation of the API and of the SQL dialects; SQLite is executed for real, MySQL and PostgreSQL are judged by '
                      'the lexer and parser only. Bounds of the generators are in DESIGN.md.',
    })

manifest = {
    'version': 1,
    'setup_cmd': 'python3-vt -c "import sys, sqlite3; sys.path.insert(0, \'.\'); from vlib import lib"',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks: the checks use only the public API of /repo. A replay file is run again by python3-vt check.py <ID> --replay <file>.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
