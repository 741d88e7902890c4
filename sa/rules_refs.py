"""Reference rules: C04 identity, C05 termination, C06 placeholders, C13 short-lived objects."""

from . import kinds as K
from . import scenes as Z
from .check import TEXT, rule
from .rules_trip import KEYS, o, trips
from .shapes import Match, Scene, arg, tup
from .values import FALSE, NONE, TRUE, Addr, Const, Each, Entry, HInst, HObj, HSet, Item, Op, T, TupV

D = Z.D
C = Const


# ------------------------------------------------------------- cyclic scenes
# a node maker: (S, n, y) adds an object named n that holds y (and its own datum)
def c_list(S, n, y):
    return S.list(n, [D(n + '.d'), y])


def c_dict(S, n, y):
    return S.dict(n, [(C('d'), D(n + '.d')), (C('y'), y)])


def c_inst(S, n, y):
    return S.inst(n, dict_entries=[(C('d'), D(n + '.d')), (C('y'), y)])


def c_slots(S, n, y):
    return S.inst(n, has_dict=False, slots=('d', 'y'), attrs={'d': D(n + '.d'), 'y': y})


def c_listsub(S, n, y):
    return S.inst(n, py=(list,), elems=[D(n + '.d'), y], dict_entries=[])


def c_listsub_attr(S, n, y):
    return S.inst(n, py=(list,), elems=[D(n + '.d')], dict_entries=[(C('y'), y)])


def c_dictsub(S, n, y):
    return S.inst(n, py=(dict,), entries=[(C('d'), D(n + '.d')), (C('y'), y)], dict_entries=[])


def c_dictsub_attr(S, n, y):
    return S.inst(n, py=(dict,), entries=[(C('d'), D(n + '.d'))], dict_entries=[(C('y'), y)])


def c_state(S, n, y):
    st = S.list(n + '.state', [D(n + '.d'), y])
    return Z.hook(S, n, {'__getstate__': st, '__setstate__': NONE}, calls=[('__setstate__', [st])])


def c_dictstate(S, n, y):
    st = S.dict(n + '.state', [(C('d'), D(n + '.d')), (C('y'), y)])
    return Z.hook(S, n, {'__getstate__': st}, attrs=lambda m, a: m.entries(arg(n), a, [(C('d'), D(n + '.d')), (C('y'), y)]))


def c_reduce(S, n, y):
    """The state of a reduce result leads back to the object."""
    x = arg(n)
    f = S.func(n + '.make', makes=x)
    st = S.list(n + '.state', [D(n + '.d'), y])

    def check(m, got):
        r = m.obj(x, got, None, ('call', f, [D(n + '.a')]))
        if r:
            m.calls(r[3], [('__setstate__', [st])])
    S.inst(n, own={'__reduce__': tup(f, S.tuple(n + '.args', [D(n + '.a')]), st), '__setstate__': NONE}, check=check)
    return x


def c_newargs(S, n, y):
    a = S.tuple(n + '.args', [D(n + '.a'), S.list(n + '.l', [y, D(n + '.d'), y])])
    return Z.hook(S, n, {'__getnewargs__': a}, ('new', T('cls', arg(n)), [D(n + '.a'), arg(n + '.l')]), attrs='dict', dict_entries=[])


def c_newargs_dict(S, n, y):
    a = S.tuple(n + '.args', [S.dict(n + '.l', [(C('k'), y), (C('d'), D(n + '.d')), (C('m'), y)])])
    return Z.hook(S, n, {'__getnewargs__': a}, ('new', T('cls', arg(n)), [arg(n + '.l')]), attrs='dict', dict_entries=[])


def c_newargsex(S, n, y):
    a = S.tuple(n + '.args', [D(n + '.a')])
    k = S.dict(n + '.kw', [(C('k'), S.list(n + '.l', [y, y])), (C('i'), S.inst(n + '.i', dict_entries=[(C('v'), y), (C('w'), y)]))])
    return Z.hook(S, n, {'__getnewargs_ex__': tup(a, k)},
                  ('new', T('cls', arg(n)), [D(n + '.a')], [('k', arg(n + '.l')), ('i', arg(n + '.i'))]), attrs='dict', dict_entries=[])


def c_list2(S, n, y):
    return S.list(n, [y, D(n + '.d'), y, y])


def c_dict2(S, n, y):
    return S.dict(n, [(C('y'), y), (C('d'), D(n + '.d')), (C('z'), y)])


def c_inst2(S, n, y):
    return S.inst(n, dict_entries=[(C('y'), y), (C('d'), D(n + '.d')), (C('z'), y)])


def c_slots2(S, n, y):
    return S.inst(n, has_dict=False, slots=('y', 'd', 'z'), attrs={'y': y, 'd': D(n + '.d'), 'z': y})


def c_dictsub2(S, n, y):
    return S.inst(n, py=(dict,), entries=[(C('y'), y), (C('d'), D(n + '.d')), (C('z'), y)], dict_entries=[])


def c_tuple(S, n, y):
    return S.tuple(n, [D(n + '.d'), y])


NODES = {'list': c_list, 'dict': c_dict, 'instance': c_inst, 'slotted instance': c_slots, 'list subclass': c_listsub,
         'attribute of a list subclass': c_listsub_attr, 'dict subclass': c_dictsub, 'attribute of a dict subclass': c_dictsub_attr,
         'state': c_state, 'dict state': c_dictstate, 'reduce state': c_reduce, 'new arguments': c_newargs, 'dict in new arguments': c_newargs_dict,
         'keyword new arguments': c_newargsex}
LINKS = {**NODES, 'tuple': c_tuple}
TWICE = {'list twice': c_list2, 'dict twice': c_dict2, 'instance twice': c_inst2, 'slotted instance twice': c_slots2, 'dict subclass twice': c_dictsub2}
EVERY = {**LINKS, **TWICE}


def cycle(names, after=True, keep=None):
    """x holds y holds ... holds x; the whole in a list with references after it."""
    S = Scene(' -> '.join(names))
    ids = [f'n{i}' for i in range(len(names))]
    for i, nm in enumerate(names):
        EVERY[nm](S, ids[i], arg(ids[(i + 1) % len(ids)]))
    x = arg(ids[0])
    S.x = x
    if after:
        p = S.inst('p', dict_entries=[(C('v'), D('pv'))])
        S.root = S.list('root', [x, p, arg(ids[-1]), x, p])
    else:
        S.root = x
    return S


def cycles(links=LINKS):
    for a in NODES:
        yield (a,)
        for b in links:
            yield (a, b)
    for a in ('reduce state', 'new arguments', 'dict in new arguments', 'keyword new arguments', 'state', 'instance'):
        for b in TWICE:
            yield (a, b)


def cycles3():
    for a in NODES:
        for b in ('tuple', 'list', 'dict', 'instance'):
            for c in ('list', 'dict', 'instance', 'tuple'):
                yield (a, b, c)


TEXT['C04'] = ('Identity across the round trip: an object written at several positions, directly or through a cycle, is restored as '
               'one object at exactly these positions, and each reference after any kind of value resolves to its own object.')


@rule('C04')
def shared(run):
    shapes = {k: v for k, v in Z.ALL.items() if k != 'lambda'}
    yield from trips(run, shapes, Z.POSITIONS, KEYS, only_refs=True)


@rule('C04')
def cyclic(run):
    for names in list(cycles()) + list(cycles3()):
        for e in KEYS:
            yield f'cycle {" -> ".join(names)}, {o(e)}', lambda names=names, e=e: run.round_trip(cycle(names), e, only_refs=True)


TEXT['C05'] = ('Encoding every cycle of one, two or three nodes, for every combination of unpicklable, make_refs and keys: no call of the '
               'encoder on an object leads to an unguarded call of the encoder on the same object.')


@rule('C05')
def terminates(run):
    for names in list(cycles()) + list(cycles3()):
        for u in (True, False):
            for r in (True, False):
                for k in ((False, True) if len(names) < 3 else (False,)):
                    e = {'unpicklable': u, 'make_refs': r, 'keys': k}

                    def go(names=names, e=e):
                        S = cycle(names, after=len(names) < 3)
                        if not run.enc(S, **e) and not run.ob.fails and not run.ob.unknown:
                            run.ob.undecided('no path')
                    yield f'cycle {" -> ".join(names)}, {o(e)}', go


TEXT['C06'] = ('After restoring every cycle, no list element, dict value, attribute or argument handed to a restored object is an '
               'instance of a class of the library itself.')


def placeholders(run, st, v, path='result', seen=None, out=None, inside=False):
    """Positions of the result that hold an instance of a library class."""
    it = run.it
    seen = set() if seen is None else seen
    out = [] if out is None else out
    h = it.hv(st, v)
    if isinstance(h, HInst):
        if not inside:
            out.append((path, v, h))
        return out
    if isinstance(v, TupV):
        for i, s in enumerate(v.segs):
            for e in seg_values(s):
                placeholders(run, st, e, f'{path}({i})', seen, out, True)
        return out
    if not isinstance(v, Addr) or v in seen:
        return out
    seen.add(v)
    segs = getattr(h, 'segs', ())
    if isinstance(h, HObj):
        # what the object holds in the end: later assignments replace earlier ones
        _, a, i, c = Match(it, None, st).log(v)
        segs = a + i + c
    for i, s in enumerate(segs):
        for lab, e in labelled(s, i):
            placeholders(run, st, e, path + lab, seen, out, isinstance(h, HSet))
    return out


def seg_values(s):
    if isinstance(s, (Item, Entry)):
        yield s.v
    elif isinstance(s, Each):
        for a in s.alts:
            for e in a.elems:
                yield from seg_values(e)
    elif isinstance(s, Op):
        yield from s.args


def labelled(s, i):
    if isinstance(s, Entry):
        yield f'[{s.k}]', s.v
    elif isinstance(s, Item):
        yield f'[{i}]', s.v
    elif isinstance(s, Each):
        for a in s.alts:
            for e in a.elems:
                yield from labelled(e, i)
    elif isinstance(s, Op):
        for j, a in enumerate(s.args):
            yield f'.{s.name}({j})' if s.name != 'setattr' else f'.{s.args[0]}', a


@rule('C06')
def no_placeholder(run):
    for names in list(cycles()) + list(cycles3()):
        for e in KEYS:
            def go(names=names, e=e):
                S = cycle(names)
                check_placeholders(run, S, e)
            yield f'cycle {" -> ".join(names)}, {o(e)}', go


def check_placeholders(run, S, e):
    n = 0
    for st, text in run.enc(S, **e):
        for s2, v in run.dec(S, text, st, **{k: b for k, b in e.items() if k == 'keys'}):
            n += 1
            for path, w, h in placeholders(run, s2, v):
                run.fail(s2, f'{path} is an instance of {h.cls}')
    if not n and not run.ob.fails and not run.ob.unknown:
        run.ob.undecided('no path')


# ----------------------------------------------------- values of properties
def held(S, how, p):
    return {'instance': lambda: S.inst('h', dict_entries=[(C('v'), D('hv'))], listed=True),
            'instance that holds a list': lambda: S.inst('h', dict_entries=[(C('v'), S.list('hl', [D('hv')]))], listed=True),
            'instance that is elsewhere': lambda: p,
            'list': lambda: S.list('h', [D('hv')]),
            'scalar': lambda: D('h'),
            'class': lambda: T('cls', p)}[how]()


@rule('C04')
def property_values(run):
    for how in ('instance', 'instance that holds a list', 'instance that is elsewhere', 'list', 'scalar', 'class'):
        for first in (True, False):
            for slotted in (False, True):
                for e in KEYS:
                    def go(how=how, first=first, slotted=slotted, e=e):
                        S = Scene('c04p')
                        p = S.inst('p', dict_entries=[(C('v'), D('pv'))], listed=True)
                        q = S.list('q', [D('qv')])
                        kw = {'has_dict': False, 'slots': ('a',), 'attrs': {'a': q}} if slotted else {'dict_entries': [(C('a'), q)]}
                        S.inst('x', props={'prop': held(S, how, p)}, listed=True, check=lambda m, v: m.instance(x, v, bare), **kw)
                        x = arg('x')
                        bare = K.Inst(**kw)
                        S.root = S.list('root', [x, p, q, p, x, q] if first else [p, q, x, p, q, x])
                        for st, text in run.enc(S, include_properties=True, **e):
                            for s2, v in run.dec(S, text, st, **{k: b for k, b in e.items() if k == 'keys'}):
                                run.match(S, s2, S.root, v, only_refs=True)
                    yield f'property that holds a {how}, {"before" if first else "after"} the rest, {"slots" if slotted else "attributes"}, {o(e)}', go
