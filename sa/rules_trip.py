"""Round-trip rules: C01 containers, C02 instances, C03 hooks, C04 references, C10 binary, C19 library types, C30 types."""

from . import kinds as K
from . import scenes as Z
from .check import TEXT, rule
from .shapes import Scene, arg, tup
from .values import FALSE, NONE, TRUE, Const, T

D = Z.D


def o(d):
    return ', '.join(f'{k}={v}' for k, v in d.items()) or 'defaults'


def trips(run, shapes, positions, opts, **kw):
    for kn in shapes:
        for pn in positions:
            for e in opts:
                refs = e.get('make_refs', True)

                def go(kn=kn, pn=pn, e=e, refs=refs):
                    run.round_trip(Z.scene(kn, Z.POSITIONS[pn]), e, refs=refs, **kw)
                yield f'{kn}, {pn}, {o(e)}', go


IN_CONTAINERS = ['at the top', 'in a list', 'in a dict', 'in a tuple']
IN_INSTANCES = ['in an attribute', 'in a slot', 'in a list subclass', 'in a dict subclass']
IN_HOOKS = ['in a state', 'in reduce arguments']
KEYS = ({}, {'keys': True})
PLAIN = KEYS + ({'make_refs': False}, {'warn': True}, {'numeric_keys': True})

TEXT['C01'] = ('Round trip of every kind of container at every position: the restored value is built from exactly the '
               'elements and keys of the original, each once, in order and in its own place.')


@rule('C01')
def containers(run):
    shapes = {**Z.SCALARS, **Z.CONTAINERS}
    yield from trips(run, shapes, IN_CONTAINERS, PLAIN)


def grid():
    """Every container kind with every container kind inside it, twice."""
    def mk(kind, S, n, elems):
        if kind == 'dict':
            return S.dict(n, [(Const(f'k{i}'), e) for i, e in enumerate(elems)])
        return getattr(S, kind)(n, elems)
    for a in ('list', 'tuple', 'set', 'dict'):
        for b in ('list', 'tuple', 'set', 'dict'):
            for c in ('list', 'tuple', 'dict', 'empty list', 'empty dict', 'empty tuple', 'empty set'):
                if a == 'set' and (b != 'tuple' or c not in ('tuple', 'empty tuple')):
                    continue
                if b == 'set' and c not in ('tuple', 'empty tuple'):
                    continue

                def build(a=a, b=b, c=c):
                    S = Scene(f'{a} of {b} of {c}')
                    if c.startswith('empty'):
                        i1, i2 = getattr(S, c.split()[1])('c1', []), getattr(S, c.split()[1])('c2', [])
                    else:
                        i1, i2 = mk(c, S, 'c1', [D('d1'), D('d2')]), getattr(S, c)('c2')
                    b1, b2 = mk(b, S, 'b1', [i1, D('d3')]), mk(b, S, 'b2', [D('d4'), i2])
                    S.root = mk(a, S, 'a', [b1, NONE, b2, D('d5')])
                    return S
                yield f'{a} of {b} of {c}', build


@rule('C01')
def nested_containers(run):
    for name, build in grid():
        for e in KEYS + ({'make_refs': False},):
            yield f'{name}, {o(e)}', lambda build=build, e=e: run.round_trip(build(), e, refs=e.get('make_refs', True))


TEXTS = ['', ' ', 'a', '0', 'null', 'None', 'py/object', 'py/id', 'py/tuple', 'py/x', 'json://', 'json://x', '/', 'a/b', 'a.b', '__x', '__dict__',
         '__class__', 'default_factory', 'locked', ' ', '😀', 'a\x00b']
SAFE_KEYS = [t for t in TEXTS if not t.startswith('py/')]
VALUES = [None, True, False, 0, 1, -1, 2 ** 80, 0.0, -0.0, 1.5, 1e300]


@rule('C01')
def special_texts(run):
    """Strings the library itself gives a meaning to are ordinary elements."""
    def seq(kind, values):
        def go():
            S = Scene(kind)
            S.root = getattr(S, kind)('x', [Const(t) for t in TEXTS] + [Const(v) for v in values])
            run.round_trip(S)
        return go
    for k in ('list', 'tuple'):
        yield f'{k} of special texts and numbers', seq(k, VALUES)
    for values in ([None, None], [0, 0.0, False], ['', ''], [1, True, 1.0], ['a', 'a'], [None], [False], ['']):
        for k in ('list', 'tuple'):
            def few(k=k, values=values):
                S = Scene(k)
                S.root = S.list('l', [getattr(S, k)('x', [Const(v) for v in values]), getattr(S, k)('y', [Const(v) for v in values] * 3)])
                run.round_trip(S)
            yield f'{k} of {values!r} and of three times these', few
    # a set holds one of the values that are equal
    yield 'set of special texts and numbers', seq('set', list(dict.fromkeys(VALUES)))
    yield 'set of special texts and numbers, other order', seq('set', list(dict.fromkeys(reversed(VALUES))))

    def vals():
        S = Scene('values')
        S.root = S.dict('x', [(Const(f'k{i}'), Const(t)) for i, t in enumerate(TEXTS + VALUES)])
        run.round_trip(S)
    yield 'dict values that are special texts and numbers', vals
    for t in SAFE_KEYS:
        for e in KEYS + ({'numeric_keys': True}, {'make_refs': False}):
            def key(t=t, e=e):
                S = Scene('key')
                S.root = S.dict('x', [(Const('first'), D('a')), (Const(t), D('b')), (Const('last'), S.list('l'))])
                run.round_trip(S, e, refs=e.get('make_refs', True))
            yield f'dict with the key {t!r}, {o(e)}', key

    def alone(v):
        def go():
            S = Scene('const')
            S.root = Const(v)
            run.round_trip(S)
        return go
    for v in TEXTS + VALUES:
        yield f'the value {v!r}', alone(v)


READONLY = [k for k in Z.INSTANCES if 'container' not in k]

TEXT['C02'] = ('Round trip of instances of every layout at every position: the restored object is a new instance of the same '
               'class whose attributes, slots, elements and items are exactly those of the original.')


@rule('C02')
def instances(run):
    yield from trips(run, Z.INSTANCES, IN_CONTAINERS, KEYS + ({'make_refs': False},))
    yield from trips(run, {**Z.SCALARS, **Z.CONTAINERS, **Z.INSTANCES}, IN_INSTANCES, KEYS + ({'make_refs': False},))
    yield from trips(run, Z.RARE_INSTANCES, ['at the top'], ({},))
    yield from trips(run, READONLY, ['at the top'], ({'handle_readonly': True},))


TEXT['C03'] = ('Round trip of instances with each combination of pickle hooks: the calls made on the restored object and '
               'their arguments are the ones pickle prescribes, each argument being what the hook returned.')


@rule('C03')
def hooks(run):
    yield from trips(run, Z.HOOKS, Z.POSITIONS, KEYS + ({'make_refs': False},))
    yield from trips(run, {**Z.SCALARS, **Z.CONTAINERS, **Z.INSTANCES}, IN_HOOKS, KEYS + ({'make_refs': False},))


TEXT['C10'] = ('Round trip of bytes and bytearray in every position with both codecs: the restored term is the original after '
               'inverse codec pairs cancel.')


@rule('C10')
def binary(run):
    opts = [{**k, 'use_base85': b, 'make_refs': m} for k in KEYS for b in (False, True) for m in (True, False)]
    yield from trips(run, Z.BINARY, Z.POSITIONS, opts)
    for b in (False, True):
        def key(b=b):
            S = Scene('key')
            x = S.scalar('x', bytes)
            S.root = S.dict('d', [(x, D('v')), (Const('a'), x), (Const('b'), S.scalar('y', bytearray))])
            run.round_trip(S, {'keys': True, 'use_base85': b})
        yield f'bytes as dict key, use_base85={b}', key


TEXT['C19'] = ('Round trip of the library types with handlers at every position: the restored value is rebuilt by the inverse '
               'constructor from the same parts.')


@rule('C19')
def library(run):
    yield from trips(run, Z.LIBRARY, Z.POSITIONS, KEYS + ({'make_refs': False},))


TEXT['C30'] = 'Round trip of classes, functions and modules at every position: the restored value is the original object.'


@rule('C30')
def types_(run):
    yield from trips(run, Z.TYPES, Z.POSITIONS, KEYS + ({'make_refs': False},))
