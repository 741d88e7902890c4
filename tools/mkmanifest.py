"""Write MANIFEST.json from the rules that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import check  # noqa: E402

for m in check.MODULES:
    importlib.import_module(m)

TECH = 'static analysis: '
DEFAULT = TECH + 'interprocedural abstract interpretation of the source (provenance dataflow over scenario objects)'
NOTE = ('Decided from the source on every run, never by executing it. Holds for every value the abstract scenarios stand for; '
        'trusts the models of the Python built-ins and library calls in sa/models.py and the induction over nested values at the '
        'recursive call. A mismatch that depends on an unmodelled construct is reported as undecided, not as a violation.')
NA = {
    'C31': 'Decided inside the JSON backends (C code of json, simplejson, ujson) whose number and text formatting is not part of the repository source, '
           'so no analysis of that source can decide it.',
    'C32': 'Depends on the numerical behaviour of numpy and pandas for every dtype and layout, which is in compiled code outside the repository; '
           'what is visible in the source (field agreement) is C20.',
    'C33': 'A bound on running time is about cost, not about which values flow where; a syntactic approximation would alarm on harmless edits.',
}


def main():
    props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in check.RULES:
            checks.append({
                'property': i,
                'quick_cmd': f'python3 -m sa.check {i} quick',
                'thorough_cmd': f'python3 -m sa.check {i} thorough',
                'technique': check.TECHNIQUE.get(i, DEFAULT),
                'level': 'other',
                'level_note': (check.TEXT.get(i, '') + ' ' + NOTE).strip(),
            })
        elif i in NA:
            na.append({'property': i, 'reason': NA[i]})
    doc = {'version': 1, 'setup_cmd': 'python3 -c "import sa.check"', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
