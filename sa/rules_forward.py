"""References to objects that come later in the document (C06)."""

from . import scenes as Z
from .check import rule
from .docs import doc
from .rules_malformed import attribute, entry
from .rules_missing import class_name, items
from .rules_safe import add_doc_rules
from .rules_trip import KEYS, o
from .shapes import Scene
from .values import Const, HInst, Raise, T, UNSUPPORTED

D = Z.D
C = Const

# document of a position, how to find the value again, numbers the position takes
FORWARD = {
    'list': (lambda x, q, w: [1, x, 2, x], lambda it, st, v: [items(it, st, v)[i] for i in (1, 3)], 1),
    'dict': (lambda x, q, w: {'j': 1, 'k': x, 'l': 2, 'm': x}, lambda it, st, v: [entry(it, st, v, C('k')), entry(it, st, v, C('m'))], 1),
    'dict below an escaped key': (lambda x, q, w: {'json://"k"': x, 'l': 2}, lambda it, st, v: [entry(it, st, v, C('json://"k"'))], 1),
    'instance': (lambda x, q, w: {'py/object': q, 'a': x, 'b': 1, 'c': x}, lambda it, st, v: [attribute(it, st, v, C('a')), attribute(it, st, v, C('c'))], 1),
    'list in an instance': (lambda x, q, w: {'py/object': q, 'a': [x]}, lambda it, st, v: items(it, st, attribute(it, st, v, C('a'))), 2),
    'dict in a list': (lambda x, q, w: [{'k': x}], lambda it, st, v: [entry(it, st, items(it, st, v)[0], C('k'))], 2),
    'list in a tuple': (lambda x, q, w: {'py/tuple': [[x]]}, lambda it, st, v: items(it, st, v.segs[0].v), 1),
}
TARGETS = {'list': lambda q: [D('t')], 'empty list': lambda q: [], 'dict': lambda q: {'t': D('t')}, 'instance': lambda q: {'py/object': q, 't': D('t')}}


@rule('C06')
def forward_references(run):
    """A number of an object that comes later in the document stands for that object."""
    for place, (wrap, find, used) in FORWARD.items():
        for target, make in TARGETS.items():
            for between in (0, 1, 2):
                for opts in KEYS:
                    if opts and 'escaped' in place:
                        continue

                    def go(wrap=wrap, find=find, used=used, make=make, between=between, opts=opts):
                        S = Scene('forward')
                        q = class_name(S.inst('q', dict_entries=[]))
                        add_doc_rules(S)
                        it = run.it
                        st = run.ctx.state()
                        run.ctx.begin(S.world)
                        d = [wrap({'py/id': 1 + used + between}, q, None)] + [[D(f'b{i}')] for i in range(between)] + [make(q), D('last')]
                        n = 0
                        for s, v in run.ctx.decode(T('jsontext', doc(it, st, d)), S.world, st, **opts):
                            n += 1
                            run.ob.paths += 1
                            if isinstance(v, Raise):
                                if v.exc == UNSUPPORTED:
                                    run.ob.undecided(f'{v.val} at {v.site}')
                                else:
                                    run.fail(s, f'{v} is raised', v.site)
                                continue
                            got = items(it, s, v)
                            if got is None or len(got) != len(d):
                                run.fail(s, f'the list is restored as {v}')
                                continue
                            try:
                                held = find(it, s, got[0])
                            except (TypeError, IndexError, AttributeError):
                                held = [None]
                            for i, w in enumerate(held):
                                if w != got[1 + between]:
                                    h = it.hv(s, w) if w is not None else None
                                    run.fail(s, f'reference {i + 1} holds {f"an instance of {h.cls}" if isinstance(h, HInst) else w} and not the object it refers to')
                        if not n:
                            run.ob.undecided('no path')
                    yield f'number of a later {target} in a {place}, {between} lists between, {o(opts)}', go
