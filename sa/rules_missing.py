"""C24: missing classes follow the on_missing policy."""

import types

from . import kinds as K
from . import scenes as Z
from .check import TEXT, rule
from .docs import doc
from .interp import exc
from .rules_safe import add_doc_rules
from .shapes import Scene, arg, flat_events
from .values import Addr, ClsV, Const, Entry, HDict, HList, HObj, Item, Op, Raise, T, TupV, UNSUPPORTED

D = Z.D
C = Const
F, LAMBDA, METHOD, BUILTIN = FUNCTIONS = tuple(T('arg', C('on_missing ' + n)) for n in ('function', 'lambda', 'method', 'builtin'))

TEXT['C24'] = ('Documents that name a class no import finds, or something that cannot be instantiated, at every position and beside references to the objects '
               'before, around and after it, decoded under every policy: the warnings, calls and exceptions on each path are the ones of the policy, the '
               'object is the dict of the document and each reference gives the object it numbers.')

A_FUNCTION = T('arg', C('function'))
NAMES = ('nosuch.C', 'nosuch.pkg.mod.C', 'collections.NoSuch', 'datetime.datetime.Nested', 'NoDots', '', '.C', 'a..C', 'collections.', A_FUNCTION)
POLICIES = {'the default': None, 'ignore': 'ignore', 'IGNORE': 'IGNORE', 'warn': 'warn', 'Warn': 'Warn', 'WARN': 'WARN', 'error': 'error', 'Error': 'Error',
            'ERROR': 'ERROR', 'a function': F, 'a lambda': LAMBDA, 'a method': METHOD, 'a builtin': BUILTIN}
# content of the object -> entries
CONTENTS = {
    'nothing': {},
    'attributes': {'a': D('a'), 'b': 1, 'c': 'text', 'd': None},
    'a state': {'py/state': D('s')},
    'arguments': {'py/newargs': D('s'), 'a': D('a')},
    'a tuple': {'a': {'py/tuple': [D('s'), 1]}},
    'bytes': {'a': {'py/b64': 'YQ=='}},
    'a property': {'py/property': {'p': 1}, 'a': D('a')},
}
# these hold values that are numbered
NUMBERED = {
    'a list': {'a': [D('a')]},
    'a dict': {'a': {'k': D('a')}},
    'an instance': lambda q: {'a': {'py/object': q}},
    'a list as state': {'py/state': [D('a')]},
    'elements': {'py/seq': [[D('a')]]},
}


class Called(K.FuncK):
    def __init__(self, t=types.FunctionType, attrs=None):
        super().__init__(t, attrs=attrs)

    def call(self, it, f, args, kw, st):
        st = st.clone()
        st.event(Op('on_missing', C(','.join(sorted(kw))), *args, site=it.site))
        return [(st, D('ignored result'))]


class TakesArguments(K.FuncK):
    """A function that cannot be called without arguments."""

    def __init__(self):
        super().__init__(types.FunctionType)

    def call(self, it, f, args, kw, st):
        return [(st, Raise(exc('TypeError'), C('missing argument'), it.site))]


def class_name(x):
    return T('concat', T('modname', x), C('.'), T('clsname', x))


# position -> (document around x, numbers given before x)
PLACES = {
    'in a list': (lambda x, q: [D('w'), x], 1),
    'in a dict': (lambda x, q: {'w': D('w'), 'x': x}, 1),
    'in a tuple': (lambda x, q: {'py/tuple': [D('w'), x]}, 0),
    'in an attribute': (lambda x, q: {'py/object': q, 'x': x}, 1),
    'in a state': (lambda x, q: {'py/object': q, 'py/state': {'x': x}}, 2),
    'bare': (lambda x, q: x, 0),
}


def scene():
    S = Scene('c24')
    S.kind(F, Called())
    S.kind(LAMBDA, Called(attrs={'__name__': C('<lambda>')}))
    S.kind(METHOD, Called(types.MethodType))
    S.kind(BUILTIN, Called(types.BuiltinFunctionType))
    S.kind(A_FUNCTION, TakesArguments())
    q = S.inst('q', dict_entries=[])
    add_doc_rules(S)
    return S, class_name(q)


def reached(it, st, v, seen=None):
    """Values reachable from v."""
    seen = set() if seen is None else seen
    yield v
    if isinstance(v, TupV):
        for s in v.segs:
            if isinstance(s, Item):
                yield from reached(it, st, s.v, seen)
        return
    h = it.h(st, v) if isinstance(v, Addr) else None
    if h is None or v in seen:
        return
    seen.add(v)
    for s in getattr(h, 'segs', ()):
        for w in ([s.v] if isinstance(s, (Item, Entry)) else s.args if isinstance(s, Op) else ()):
            yield from reached(it, st, w, seen)


def flatdoc(it, st, v):
    """A parsed document as a plain value."""
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(h, HDict):
        return ('dict', tuple((s.k, flatdoc(it, st, s.v)) if isinstance(s, Entry) else s for s in h.segs))
    if isinstance(h, HList):
        return ('list', tuple(flatdoc(it, st, s.v) if isinstance(s, Item) else s for s in h.segs))
    return v


def items(it, st, v):
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(h, HList) and all(isinstance(s, Item) for s in h.segs):
        return [s.v for s in h.segs]
    return None


def build(q, name, content, place, times, extra=0):
    wrap, n = PLACES[place]
    c = content(q) if callable(content) else content
    xs = [{'py/object': name, **c} for _ in range(times)]
    d = [{'py/object': q, 'n': 1}, [D('l')]] + [wrap(x, q) for x in xs] + [{'py/object': q, 'n': 2}, [D('m')]]
    at = [3 + i * (n + 1 + extra) + n for i in range(times)]
    after = 3 + times * (n + 1 + extra)
    refs = [1, 2] + at + [after, after + 1]
    return d + [{'py/id': i} for i in refs], xs


def decoded(run, name, content, place, policy, times=1, keys=False, extra=0):
    S, q = scene()
    if name == A_FUNCTION:
        name = class_name(name)
    st = run.ctx.state()
    run.ctx.begin(S.world)
    d, xs = build(q, name, content, place, times, extra)
    opts = {} if policy is None else {'on_missing': policy}
    if keys:
        opts['keys'] = True
    p = policy.lower() if isinstance(policy, str) else policy
    n = len(xs)
    it = run.it
    for s, v in run.ctx.decode(T('jsontext', doc(it, st, d)), S.world, st, **opts):
        run.ob.paths += 1
        if isinstance(v, Raise) and v.exc == UNSUPPORTED:
            run.ob.undecided(f'{v.val} at {v.site}')
            continue
        ev = list(flat_events(s.events))
        warns = [e for e in ev if e.name == 'warn']
        calls = [e for e in ev if e.name == 'on_missing']
        if p == 'error':
            if not isinstance(v, Raise):
                run.fail(s, 'no exception is raised')
            elif not (isinstance(v.exc, ClsV) and v.exc.info.name == 'ClassNotFoundError'):
                run.fail(s, f'{v.exc} is raised instead of ClassNotFoundError', v.site)
        elif isinstance(v, Raise):
            run.fail(s, f'{v} is raised', v.site)
        if len(warns) != (n if p == 'warn' else 0):
            run.fail(s, f'{len(warns)} warnings are issued', warns[0].site if warns else None)
        if len(calls) != (n if p in FUNCTIONS else 0):
            run.fail(s, f'the function is called {len(calls)} times', calls[0].site if calls else None)
        for c in calls:
            if c.args != (C(''), C(name) if isinstance(name, str) else name):
                run.fail(s, f'the function is called with {c.args[1:]}', c.site)
        if isinstance(v, Raise):
            continue
        got = items(it, s, v)
        if got is None or len(got) != len(d):
            run.fail(s, f'the list is restored as {v}')
            continue
        body, refs = got[:4 + n], got[4 + n:]
        first, mid, last = body[:2], body[2:2 + n], body[2 + n:]
        for what, a, b in zip(('instance before', 'list before'), first, refs):
            if a != b:
                run.fail(s, f'the reference to the {what} it gives {b}')
        for what, a, b in zip(('instance after', 'list after'), last, refs[2 + n:]):
            if a != b:
                run.fail(s, f'the reference to the {what} it gives {b}')
        for x, w, r in zip(xs, mid, refs[2:2 + n]):
            s0 = s.clone()
            want = flatdoc(it, s0, doc(it, s0, x))
            if flatdoc(it, s, r) != want:
                run.fail(s, f'the reference to the object gives {flatdoc(it, s, r)}')
            found = [y for y in reached(it, s, w) if flatdoc(it, s, y) == want]
            if not found:
                run.fail(s, 'the object is not the dict of the document')
            elif r not in found:
                run.fail(s, 'the reference gives another object than the place itself')


@rule('C24')
def policies(run):
    for name in NAMES:
        for pn, p in POLICIES.items():
            for place in PLACES:
                yield (f'{name if isinstance(name, str) else "name of a function"!r} {place}, policy {pn}',
                       lambda name=name, p=p, place=place: decoded(run, name, CONTENTS['attributes'], place, p))


@rule('C24')
def contents(run):
    for cn, c in CONTENTS.items():
        for place in PLACES:
            for p in (None, 'warn', F):
                for times in (1, 2):
                    for keys in (False, True):
                        yield (f'missing class with {cn} {place}, {times} times, policy {pn_of(p)}, keys={keys}',
                               lambda c=c, place=place, p=p, times=times, keys=keys: decoded(run, 'nosuch.C', c, place, p, times, keys))


def pn_of(p):
    return 'the default' if p is None else 'a function' if p == F else p


@rule('C24')
def holding(run):
    for cn, c in NUMBERED.items():
        yield f'missing class that holds {cn}', lambda c=c: decoded(run, 'nosuch.C', c, 'bare', None, extra=1)


@rule('C24')
def named_only(run):
    """A class or function that is only named takes no number, whether it is found or not."""
    for tag in ('py/type', 'py/function'):
        for name in ('nosuch.C', 'nosuch.pkg.mod.C', 'collections.NoSuch', 'NoDots'):
            for place, (wrap, before) in PLACES.items():
                for times in (1, 2):
                    for keys in (False, True):
                        def go(tag=tag, name=name, wrap=wrap, before=before, times=times, keys=keys):
                            S, q = scene()
                            it = run.it
                            st = run.ctx.state()
                            run.ctx.begin(S.world)
                            d = [[D('l')], *[wrap({tag: name}, q) for _ in range(times)], {'py/object': q, 'n': 2}, [D('m')]]
                            after = 2 + times * before
                            d += [{'py/id': i} for i in (1, after, after + 1)]
                            for s, v in run.ctx.decode(T('jsontext', doc(it, st, d)), S.world, st, **({'keys': True} if keys else {})):
                                run.ob.paths += 1
                                if isinstance(v, Raise):
                                    if v.exc == UNSUPPORTED:
                                        run.ob.undecided(f'{v.val} at {v.site}')
                                    else:
                                        run.fail(s, f'{v} is raised', v.site)
                                    continue
                                got = items(it, s, v)
                                if got is None or len(got) != len(d):
                                    run.fail(s, f'the list is restored as {v}')
                                    continue
                                for what, a, b in zip(('list before', 'instance after', 'list after'), (got[0], *got[1 + times:3 + times]), got[3 + times:]):
                                    if a != b:
                                        run.fail(s, f'the reference to the {what} it gives {b}')
                        yield f'{tag} with the name {name!r} {place}, {times} times, keys={keys}', go
