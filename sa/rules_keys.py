"""C07: keys=True keeps every key."""

from . import kinds as K
from . import scenes as Z
from .check import TEXT, rule
from .shapes import Scene, arg, datum, tup
from .values import NONE, Const, Ref, T
from .rules_refs import EVERY, check_placeholders

D = Z.D
C = Const


def tags(run):
    """Every tag constant of the library."""
    mod = run.it.prog.modules['jsonpickle.tags']
    out = []
    import ast
    for n in mod.tree.body:
        v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            out.append(v.value)
    return out


class Key(K.Datum):
    """A hashable value that is no string, of any type."""
    name = 'non-string key'

    def isinstance(self, r):
        return False if r is str else None


def k_inst(S, n):
    return S.inst(n, own={'__hash__': None, '__eq__': None}, dict_entries=[(C('v'), D(n + '.v'))])


def k_slots(S, n):
    return S.inst(n, own={'__hash__': None, '__eq__': None}, has_dict=False, slots=('v',), attrs={'v': D(n + '.v')})


def k_tuple(S, n):
    return S.tuple(n, [C(1), S.scalar(n + '.s', str)])


def k_tuple_inst(S, n):
    return S.tuple(n, [k_inst(S, n + '.i'), C('a')])


KEYS = {
    'int': lambda S, n: S.scalar(n, int), 'float': lambda S, n: S.scalar(n, float), 'bool': lambda S, n: S.scalar(n, bool),
    'None': lambda S, n: NONE, 'zero': lambda S, n: C(0), 'True': lambda S, n: C(True), 'minus one': lambda S, n: C(-1), 'half': lambda S, n: C(0.5),
    'bytes': lambda S, n: S.scalar(n, bytes), 'tuple': k_tuple, 'tuple of an instance': k_tuple_inst, 'empty tuple': lambda S, n: S.tuple(n, []),
    'instance': k_inst, 'slotted instance': k_slots, 'frozenset': Z.ALL['frozenset'], 'UUID': Z.ALL['UUID'], 'datetime': Z.ALL['datetime'],
    'named tuple': Z.ALL['named tuple'], 'class': Z.ALL['class'], 'built-in type': Z.ALL['built-in type'], 'function': Z.ALL['function'],
    'frozen dataclass': Z.ALL['frozen dataclass'], '__reduce__ with 2 members': Z.ALL['__reduce__ with 2 members'],
    '__getnewargs__': Z.ALL['__getnewargs__'], 'Decimal': Z.ALL['Decimal'], 'Fraction': Z.ALL['Fraction'],
}
STRINGS = ['json://', 'json://x', 'json://"x"', 'json://{"py/object": "x"}', 'json://json://x', 'json:/', '', ' ', 'a', '1', 'null', 'true', 'py/', 'py/x', 'PY/OBJECT',
           '__dict__x', '__dict__', 'default_factory', 'default', 'x/y', '(1, 2)', "b'a'"]

TEXT['C07'] = ('Round trip with keys=True of dicts and dict subclasses with every kind of key (each scalar type, tuples, instances, library values, '
               'classes, every tag name, every spelling of the escape prefix), in both insertion orders, with references shared between keys, values and what follows.')


def maps(S, how, entries):
    if how == 'dict':
        return S.dict('d', entries)
    if how == 'dict subclass':
        return S.inst('d', py=(dict,), entries=entries, dict_entries=[])
    if how == 'dict in an attribute':
        return S.inst('i', dict_entries=[(C('d'), S.dict('d', entries))])
    if how == 'dict in a state':
        st = S.list('st', [S.dict('d', entries)])
        return Z.hook(S, 'i', {'__getstate__': st, '__setstate__': NONE}, calls=[('__setstate__', [st])])
    if how == 'dict as state':
        st = S.dict('d', entries)
        return Z.hook(S, 'i', {'__getstate__': st, '__setstate__': NONE}, calls=[('__setstate__', [st])])
    if how == 'dict in reduce arguments':
        f = S.func('make', makes=arg('i'))
        d = S.dict('d', entries)

        def check(m, got):
            m.obj(arg('i'), got, None, ('call', f, [d, D('x')]))
        return S.inst('i', own={'__reduce__': tup(f, S.tuple('args', [d, D('x')]))}, check=check)
    raise AssertionError(how)


HOWS = ('dict', 'dict subclass', 'dict in an attribute', 'dict in a state', 'dict as state', 'dict in reduce arguments')


@rule('C07')
def keys(run):
    named = dict(KEYS)
    for t in tags(run) + STRINGS:
        named[f'string {t!r}'] = lambda S, n, t=t: C(t)
    for kn, mk in named.items():
        for how in HOWS:
            for order in (0, 1, 2):
                if order and how not in ('dict', 'dict subclass'):
                    continue

                def go(mk=mk, how=how, order=order):
                    S = Scene('keys')
                    k = mk(S, 'k')
                    p, q = S.list('p', [D('p.v')]), S.inst('q', dict_entries=[(C('v'), D('q.v'))])
                    r = S.dict('r', [(C('v'), D('r.v'))])
                    es = [(C('first'), p), (k, r), (C('last'), q)]
                    if order == 1:
                        es = [es[1], es[0], es[2], (S.scalar('k2', int), r)]
                    elif order == 2:
                        es = [(S.scalar('k2', bytes), q), es[0], es[1], es[2]]
                    S.root = S.list('root', [maps(S, how, es), q, p, r])
                    run.round_trip(S, {'keys': True})
                yield f'{how} with the key {kn}, order {order}', go


@rule('C07')
def shared_keys(run):
    """Objects that are keys and values at the same time."""
    def both(how):
        S = Scene('both')
        k, k2 = k_inst(S, 'k'), k_slots(S, 'k2')
        l = S.list('l', [k])
        es = [(C('a'), k2), (k, l), (C('b'), k), (k2, S.tuple('t', [k, l, k2])), (S.scalar('n', int), k2)]
        S.root = S.list('root', [maps(S, how, es), k2, l, k])
        return S

    def before(how):
        S = Scene('before')
        k, k2 = k_inst(S, 'k'), k_slots(S, 'k2')
        S.root = S.list('root', [k, maps(S, how, [(k2, k), (k, k2)]), k2, k])
        return S

    def deep(how):
        """A key that holds containers."""
        S = Scene('deep')
        l = S.list('l', [D('l.v')])
        k = S.inst('k', own={'__hash__': None, '__eq__': None}, dict_entries=[(C('l'), l), (C('m'), S.dict('m', [(C('x'), l)]))])
        S.root = S.list('root', [maps(S, how, [(C('a'), D('a')), (k, l), (C('b'), arg('m'))]), l, k, arg('m')])
        return S

    def nested(how):
        """Non-string keys at two levels."""
        S = Scene('nested')
        k = k_inst(S, 'k')
        d2 = S.dict('d2', [(S.scalar('n', int), k), (k, D('v')), (C('a'), k)])
        S.root = S.list('root', [maps(S, how, [(S.scalar('n2', int), d2), (k, d2), (C('z'), d2)]), d2, k])
        return S

    def key_in_key(how):
        """A key whose attribute is a dict with non-string keys."""
        S = Scene('key in key')
        l = S.list('l', [D('l.v')])
        d2 = S.dict('d2', [(S.scalar('n', int), l), (C('a'), D('a'))])
        k = S.inst('k', own={'__hash__': None, '__eq__': None}, dict_entries=[(C('d2'), d2)])
        S.root = S.list('root', [maps(S, how, [(k, l), (C('b'), d2)]), l, d2, k])
        return S

    def escaped(how):
        S = Scene('escaped')
        l, m = S.list('l', [D('l.v')]), S.inst('m', dict_entries=[(C('v'), D('m.v'))])
        es = [(C('py/object'), l), (C('json://a'), m), (C('py/id'), S.dict('e', [(C('py/tuple'), l), (S.scalar('n', int), m)])), (C('a'), m), (S.scalar('ni', int), l)]
        S.root = S.list('root', [maps(S, how, es), m, l, arg('e')])
        return S
    for f in (both, before, deep, nested, key_in_key, escaped):
        for how in HOWS:
            yield f'{f.__name__}, {how}', lambda f=f, how=how: run.round_trip(f(how), {'keys': True})


@rule('C07')
def every_value(run):
    """Each kind of value under a non-string, an escaped and a plain key."""
    for kn in Z.ALL:
        if kn in Z.RARE_INSTANCES or kn == 'lambda':
            continue

        def go(kn=kn):
            S = Scene(kn)
            x = Z.ALL[kn](S, 'x')
            p = S.list('p', [D('p.v')])
            S.root = S.list('root', [S.dict('d', [(S.scalar('n', int), x), (C('py/object'), x), (C('a'), x), (S.scalar('m', int), p)]), x, p])
            run.round_trip(S, {'keys': True})
        yield f'{kn} as the value of every kind of key', go


@rule('C06')
def placeholders_under_keys(run):
    """References to an object under construction below non-string keys."""
    for outer in ('state', 'dict state', 'reduce state', 'new arguments', 'dict in new arguments', 'instance'):
        for how in ('dict', 'dict subclass'):
            def go(outer=outer, how=how):
                S = Scene('cycle')
                x = EVERY[outer](S, 'x', arg('d'))
                maps(S, how, [(C('a'), x), (S.scalar('n', int), x), (C('py/id'), x), (S.scalar('m', bytes), x)])
                S.root = S.list('root', [x, arg('d')])
                check_placeholders(run, S, {'keys': True})
            yield f'cycle {outer} -> {how} with non-string keys', go
