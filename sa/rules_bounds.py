"""C29: max_depth and max_iter bound the traversal."""

import itertools

from . import scenes as Z
from .check import ASSUMPTIONS, TEXT, rule
from .docs import doc
from .rules_doc import doc_of
from .rules_state import canon
from .rules_trip import o
from .shapes import Scene
from .values import Const, T

D = Z.D
C = Const

TEXT['C29'] = ('Trees of containers and instances, and iterators, are encoded for every bound around their size; the document must be the one written down '
               'from the definition: what lies at the bound is repr of it, everything above is complete, and an iterator gives its first max_iter items.')
ASSUMPTIONS['C29'] = ['What __getstate__ and __reduce__ return counts as a level of its own; only the nesting of containers and attributes is checked.']


def name_of(x):
    return T('concat', T('modname', x), C('.'), T('clsname', x))


class Tree:
    """A tree and the document it must give."""

    def __init__(self, S):
        self.S = S
        self.n = 0
        self.of = {}

    def fresh(self):
        self.n += 1
        return f't{self.n}'

    def leaf(self):
        return D(self.fresh())

    def make(self, kind, kids):
        S, n = self.S, self.fresh()
        ks = [f'k{i}' for i in range(len(kids))]
        if kind == 'list':
            x = S.list(n, kids)
        elif kind == 'tuple':
            x = S.tuple(n, kids)
        elif kind == 'set':
            x = S.set(n, kids)
        elif kind == 'dict':
            x = S.dict(n, [(C(k), v) for k, v in zip(ks, kids)])
        elif kind == 'instance':
            x = S.inst(n, dict_entries=[(C(k), v) for k, v in zip(ks, kids)])
        elif kind == 'slots':
            x = S.inst(n, has_dict=False, slots=tuple(ks), attrs=dict(zip(ks, kids)))
        elif kind == 'list subclass':
            x = S.inst(n, py=(list,), elems=kids, dict_entries=[])
        elif kind == 'dict subclass':
            x = S.inst(n, py=(dict,), entries=[(C(k), v) for k, v in zip(ks, kids)], has_dict=False)
        elif kind == 'iterator':
            x = S.inst(n, own={'__iter__': None, '__next__': None}, elems=kids)
        else:
            raise LookupError(kind)
        self.of[x] = (kind, kids)
        return x

    def want(self, x, bound, plain, depth=0, items=None):
        if x not in self.of:
            return x
        if depth == bound:
            return T('repr', x)
        kind, kids = self.of[x]
        if kind == 'iterator' and items is not None:
            kids = kids[:items]
        ds = [self.want(k, bound, plain, depth + 1, items) for k in kids]
        ks = [f'k{i}' for i in range(len(kids))]
        tag = {} if plain else {'py/object': name_of(x)}
        if kind == 'list' or (kind in ('tuple', 'set') and plain):
            return ds
        if kind in ('tuple', 'set'):
            return {f'py/{kind}': ds}
        if kind == 'dict':
            return dict(zip(ks, ds))
        if kind in ('instance', 'slots', 'dict subclass'):
            return {**tag, **dict(zip(ks, ds))}
        if kind == 'list subclass':
            return ds if plain else {**tag, 'py/seq': ds}
        return {**tag, 'py/iterator': ds}


MODES = {'defaults': {}, 'make_refs=False': {'make_refs': False}, 'unpicklable=False': {'unpicklable': False}, 'keys=True': {'keys': True}}
KINDS = ['list', 'tuple', 'set', 'dict', 'instance', 'slots', 'list subclass', 'dict subclass', 'iterator']


def check(run, build, opts, bound, items=None):
    S = Scene('c29')
    t = Tree(S)
    root = build(t)
    o2 = dict(opts)
    if bound is not None:
        o2['max_depth'] = bound
    if items is not None:
        o2['max_iter'] = items
    n = 0
    for st, text in run.enc(S, root, **o2):
        n += 1
        got = canon(run.it, st, doc_of(text))
        st2 = st.clone()
        want = canon(run.it, st2, doc(run.it, st2, flats(t.want(root, bound, opts.get('unpicklable') is False, 0, items))))
        if got != want:
            run.fail(st, f'the document is {got[:300]} instead of {want[:300]}')
    if not n and not run.ob.fails and not run.ob.unknown:
        run.ob.undecided('no path')


def flats(v):
    if isinstance(v, dict):
        return {k: flats(x) for k, x in v.items()}
    if isinstance(v, list):
        return [flats(x) for x in v]
    if isinstance(v, T) and v.op == 'datum':
        return T('flat', v)
    return v


@rule('C29')
def depth(run):
    for kinds in itertools.product(KINDS, repeat=2):
        if kinds[0] == 'set' and kinds[1] in ('list', 'set', 'dict', 'list subclass', 'dict subclass', 'iterator'):
            continue
        for inner in ('list', 'instance'):
            def build(t, kinds=kinds, inner=inner):
                a = t.make(inner, [t.leaf()]) if kinds[0] != 'set' else t.make('tuple', [t.leaf()])
                b = t.make(kinds[1], [t.leaf(), a, t.leaf()] if kinds[1] != 'set' else [t.make('tuple', [t.leaf()]), t.leaf()])
                return t.make(kinds[0], [t.leaf(), b, t.leaf()])
            for mode, opts in MODES.items():
                for bound in (0, 1, 2, 3, 9, None):
                    yield (f'{kinds[0]} of {kinds[1]} of {inner}, {mode}, max_depth={bound}',
                           lambda build=build, opts=opts, bound=bound: check(run, build, opts, bound))


@rule('C29')
def width(run):
    """Siblings are at the same depth, whatever lies below the ones before them."""
    for kind in KINDS:
        if kind == 'set':
            continue

        def build(t, kind=kind):
            deep = t.make('list', [t.make('dict', [t.make('tuple', [t.leaf()])])])
            other = t.make('instance', [t.make('list', [t.leaf()]), t.leaf()])
            return t.make(kind, [deep, other, t.make('list', []), t.make('list', [t.make('list', [t.leaf()])])])
        for mode, opts in MODES.items():
            for bound in (0, 1, 2, 3, 4, None):
                yield f'{kind} of several, {mode}, max_depth={bound}', lambda build=build, opts=opts, bound=bound: check(run, build, opts, bound)


@rule('C29')
def shared(run):
    """An object that is both above and at the bound."""
    for first in ('above', 'below'):
        for kind in ('list', 'dict', 'instance', 'tuple'):
            def build(t, kind=kind, first=first):
                x = t.make(kind, [t.leaf()])
                y = t.make('list', [x])
                return t.make('list', [x, y] if first == 'above' else [y, x])
            for mode, opts in MODES.items():
                yield (f'{kind} met {"first above and then at the bound" if first == "above" else "first at the bound and then above it"}, {mode}, max_depth=2',
                       lambda build=build, opts=opts: check(run, build, opts, 2))


@rule('C29')
def items(run):
    wraps = {'at the top': lambda t, x: x, 'in a list': lambda t, x: t.make('list', [t.leaf(), x, t.leaf()]), 'in an attribute': lambda t, x: t.make('instance', [x, t.leaf()]),
             'in a dict': lambda t, x: t.make('dict', [x, t.leaf()]), 'in an iterator': lambda t, x: t.make('iterator', [x, t.leaf()]), 'in a tuple': lambda t, x: t.make('tuple', [x])}
    for where, wrap in wraps.items():
        for size in (0, 1, 2, 3):
            for inner in ('leaves', 'lists'):
                def build(t, wrap=wrap, size=size, inner=inner):
                    return wrap(t, t.make('iterator', [t.leaf() if inner == 'leaves' else t.make('list', [t.leaf(), t.leaf(), t.leaf(), t.leaf()]) for _ in range(size)]))
                for mode, opts in MODES.items():
                    for m in (None, 0, 1, 2, 3, 9):
                        yield (f'iterator over {size} {inner}, {where}, {mode}, max_iter={m}',
                               lambda build=build, opts=opts, m=m: check(run, build, opts, None, m))

    def two(t):
        return t.make('list', [t.make('iterator', [t.leaf() for _ in range(3)]), t.make('iterator', [t.leaf() for _ in range(3)]), t.make('list', [t.leaf() for _ in range(3)])])
    for mode, opts in MODES.items():
        for m in (None, 0, 1, 2, 3):
            yield f'two iterators, {mode}, max_iter={m}', lambda opts=opts, m=m: check(run, two, opts, None, m)
