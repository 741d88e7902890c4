"""Record the vocabulary of the documents written by the current tree (only to be used on a tree known to be good)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(12000)
from sa import check, rules_vocab as V, scenes as Z  # noqa: E402

run = check.Run('C27')
table = {}
for kind in Z.ALL:
    for on, opts in V.OPTIONS.items():
        run.ob = check.Ob(kind)
        got = V.vocabulary(run, kind, opts)
        assert not run.ob.fails and not run.ob.unknown and got, (kind, on, run.ob.fails, run.ob.unknown)
        if on == 'defaults' or got != table[f'{kind}, defaults']:
            table[f'{kind}, {on}'] = got
with open(V.TABLE, 'w') as f:
    f.write('{\n' + ',\n'.join(f'{json.dumps(k)}: {json.dumps(v)}' for k, v in table.items()) + '\n}\n')
