"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'contracts on the real functions, checked by symbolic execution of the current source with z3; ' \
       'counterexamples replayed on the real code'
NOTE = {
    'C01': 'SQL text of all markers proved for all schemas of the stated shape (unbounded columns, rows); assumes the trigger semantics of the databases',
    'C02': 'own-row triggers proved for all schemas; assumes the trigger semantics of the databases',
    'C03': 'both directions proved; two known findings (generic rows moved between models)',
    'C04': 'flush proved for any number of markers and passes, following one arbitrary instance; partial correctness',
    'C05': 'invariant proved after every database operation of flush, for failures of any recomputation',
    'C06': 'rebuildall proved for any number of fields, models and instances; flush and get_alldenorms by contract',
    'C07': 'count triggers proved for all schemas; assumes the trigger semantics of the databases',
    'C08': 'sum triggers proved for all schemas; assumes the trigger semantics of the databases',
    'C09': 'proved for every stored and remembered value, two databases, new, loaded and assigned instances; one known finding (what is shown after saving to another database)',
    'C11': 'proved for every pair of keys and every content of the cache, with evictions; two known findings (refresh_from_db, deferred loading)',
    'C12': 'collection, merging, naming, texts and installation proved for any number of models, fields, triggers and actions',
    'C13': 'installing and dropping proved for any set of existing triggers and any failing statement',
    'C14': 'proved for any number of relations of every kind in both directions, any name and kind, however the models name each other',
    'C15': 'proved for every computed value and previous value; the steps of Model.save are assumed',
    'C16': 'proved for any number of relations of both kinds, own, proxy and child models; the steps of Model.save are assumed',
    'C17': 'proved for every request, response and outcome of the flush; flush by contract',
    'C18': 'proved for any number of cycles, any interval and an interruption at any operation; operating system calls by stand-ins',
    'C19': 'proved for any values of every option of Django and of one unknown option; Field.deconstruct by contract',
    'C20': 'invariant proved with other connections acting between any two statements; one known finding (gap between save and clearing)',
    'C10': 'cache key triggers proved for all schemas; one known finding (generic rows moved between models)',
}

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = {
    'version': 1,
    'setup_cmd': "python3-vt -W ignore -c 'import z3, jsonschema' && /opt/venv/bin/python -W ignore -c 'import django, psycopg2, MySQLdb'",
    'checks': [{
        'property': p,
        'quick_cmd': 'python3-vt -W ignore check.py %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt -W ignore check.py %s' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': TECH,
        'level': 'proof',
        'level_note': NOTE[p],
    } for p in ids if p in NOTE],
    'not_applicable': [],
    'notes': 'See DESIGN.md. Known and fixed defects: KNOWN_FINDINGS.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
