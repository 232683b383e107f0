#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the table below."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PY = '/opt/venv/bin/python pbt/check.py '
MODEL = 'stateful model-based property testing'
INV = 'stateful property testing with an invariant over the history'
META = 'stateful property testing with a differential oracle'
T = {
    'C01': (INV, 'both ends of every relation re-read after every operation'),
    'C02': (MODEL, 'independent list-based model of every structural operation'),
    'C03': (MODEL, 'model decides which relations are cyclic; complete state, views and listeners compared around refusals'),
    'C04': (META, 'random DAGs, all declaration routes and insertion orders, compared with the DAG and with the model'),
    'C05': (MODEL, 'model of the enable switches over every route'),
    'C06': (INV, 'filters evaluated on every node after every operation'),
    'C07': (INV, 'links of the view compared with the displayed part of the hierarchy after every operation'),
    'C08': (INV, 'listener mirrors replay notifications; compared with the paths of the view'),
    'C09': (INV, 'cached labels of notified rows compared with recomputed ones'),
    'C10': (INV, 'whole view queried inside every notification'),
    'C11': (INV, 'all paths enumerated from the hierarchy and compared with every navigation query'),
    'C12': (META, 'differential: the view against a freshly created view with the same filters'),
    'C13': (INV, 'extra filters evaluated on the displayed nodes, repeatedly'),
    'C14': (INV, 'counts recomputed after every operation, listeners monitored'),
    'C15': (MODEL, 'model of views, names and listener registrations'),
    'C16': (MODEL, 'model of waiting actions with main-loop iterations'),
    'C17': (MODEL, 'real threads hand over generated batches; outcome compared with sequential application in priority order'),
    'C18': (INV, 'rows and cells of the GTK model compared with the view after every operation'),
    'C19': (INV, 'order of all siblings checked after every operation with an independent comparison'),
    'C20': (MODEL, 'model of the collapsed nodes; widget state compared when the main loop is idle'),
    'C21': (MODEL, 'drops replayed on the tree model; external calls recorded'),
    'C22': (MODEL, 'generated column descriptions and selections against what was declared and selected'),
    'C23': (INV, 'rendered cell properties compared with the colour function; brightness relations over generated colours'),
    'C25': (INV, 'heights of all rows drawn off screen compared with the separator function after generated histories'),
    'C24': (INV, 'notifications of the main view compared with the difference of states'),
}
import sys
sys.path.insert(0, os.path.join(V, 'pbt'))
done = open(os.path.join(V, 'pbt', 'checks_gtk.py')).read()
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in ('C18', 'C19', 'C20', 'C21', 'C22', 'C23') and \
            "id = '%s'" % i not in done:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    tech, how = T[i]
    checks.append({
        'property': i, 'quick_cmd': PY + i,
        'thorough_cmd': PY + i + ' --tier thorough',
        'technique': 'property-based testing: ' + tech,
        'level': 'exploration',
        'level_note': 'Seeded random exploration of the real code (%s). '
        'Bounded by the number and size of generated cases (see the evidence '
        'file); trusts the reference model/oracle in /verif/pbt and the '
        'Python and GTK runtime.' % how})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python pbt/check.py --selftest',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every check drives the public '
           'interface of the sources in /repo directly (pure Python, nothing '
           'to build). One engine, pbt/check.py; see DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
